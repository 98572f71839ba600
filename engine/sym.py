"""Path-wise symbolic executor over LLVM IR: generates the proof obligations."""
import time
import z3
from mem import (Ptr, NULL, FnPtr, Opaque, Unsupported, Base, Cells, SymStore, Range, store as mstore,
                 bv, b_, simp, split, add64, sub64, delta, to_bytes, from_bytes, M64)
import llir

z3.set_param("smt.random_seed", 1)


class Fact:
    """forall j: BV64. guard... -> body(j)   (quantified hypothesis, instantiated at ground terms)"""
    _n = 0

    def __init__(self, fn, name="fact", hints=()):
        self.fn = fn
        self.name = name
        self.hints = list(hints)
        self._trig = None
        self._inst = {}

    def triggers(self):
        if self._trig is None:
            Fact._n += 1
            j = z3.BitVec("?j%d" % Fact._n, 64)
            body = z3.simplify(self.fn(j))
            out = []
            seen = set()
            st = [body]
            while st:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_select(e) or (z3.is_app(e) and e.num_args() >= 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    key = e.arg(0) if z3.is_select(e) else e.decl()
                    for ai, idx in enumerate(e.children()):
                        if z3.is_select(e) and ai == 0:
                            continue
                        if not z3.is_bv(idx) or idx.size() != 64:
                            continue
                        t0 = simp(z3.substitute(idx, (j, z3.BitVecVal(0, 64))))
                        t1 = simp(z3.substitute(idx, (j, z3.BitVecVal(1, 64))))
                        d = delta(t1, t0)
                        if d is None or d == 0:
                            continue
                        if z3.is_select(e):
                            out.append((("sel", key.get_id()), 0, t0, d, key))
                        else:
                            out.append((("uf", key.name()), ai, t0, d, key))
                st.extend(e.children())
            self._trig = out
        return self._trig

    def inst(self, t):
        t = simp(t)
        k = t if isinstance(t, int) else ("e", t.get_id())
        r = self._inst.get(k)
        if r is None:
            r = (t, self.fn(bv(t, 64)))
            self._inst[k] = r
            return r[1]
        return r[1]


def collect_index_terms(exprs, seen, table):
    st = list(exprs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_app(e):
            if z3.is_select(e):
                table.setdefault(("sel", e.arg(0).get_id()), {})[(0, e.arg(1).get_id())] = (0, e.arg(1))
            elif e.num_args() >= 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for ai in range(e.num_args()):
                    a = e.arg(ai)
                    if z3.is_bv(a) and a.size() == 64:
                        table.setdefault(("uf", e.decl().name()), {})[(ai, a.get_id())] = (ai, a)
            st.extend(e.children())


class Frame:
    __slots__ = ("fn", "env", "blk", "ip", "prev", "ret", "invoke", "allocas", "loopmode", "tag")

    def copy(self):
        f = Frame()
        f.fn, f.env, f.blk, f.ip, f.prev = self.fn, dict(self.env), self.blk, self.ip, self.prev
        f.ret, f.invoke, f.allocas, f.loopmode, f.tag = self.ret, self.invoke, list(self.allocas), dict(self.loopmode), self.tag
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "facts", "ghost", "trace", "result", "freed", "depth", "xc", "bounded")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = []
        self.ghost = {}
        self.trace = ()
        self.result = None
        self.freed = frozenset()
        self.xc = None
        self.bounded = False

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.freed = self.freed
        s.xc = self.xc
        s.bounded = self.bounded
        return s

    def assume(self, c):
        c = simp(b_(c))
        if isinstance(c, int):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(c)

    def event(self, *a):
        self.trace = self.trace + (a,)


class ObjInfo:
    __slots__ = ("id", "name", "size", "kind", "const", "watch", "addr", "external", "nofree")


class Obligation:
    __slots__ = ("name", "pc", "facts", "goal", "hints", "fn", "hyp")

    def __init__(self, name, pc, facts, goal, fn, hints=()):
        self.name, self.pc, self.facts, self.goal, self.fn, self.hints = name, pc, facts, goal, fn, list(hints)


class Limits:
    paths = 20000
    unroll = 300
    inline_depth = 60


class Executor:
    def __init__(self, module, layout=None):
        self.m = module
        self.layout = layout
        self.objs = {}
        self.nobj = 1
        self.contracts = {}
        self.used_contracts = set()
        self.inlined = set()
        self.trusted = set()
        self.obls = []
        self.gobj = {}
        self.fresh_n = 0
        self.check_bounds = True
        self.on_store = None
        self.loop_specs = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.entail_cache = {}
        self.lim = Limits()
        self.npaths = 0
        self.deadline = None
        self.malloc_fail = False
        self.bounded_loops = {}
        self.builtin_override = {}
        self.cur = None
        self.safety_on = True
        self.notes = []
        self.nsummaries = 0

    # ---------------- objects ----------------
    def new_obj(self, st, name, size, kind="struct", lazy=None, content=None):
        o = ObjInfo()
        o.id = self.nobj
        self.nobj += 1
        o.name, o.size, o.kind = name, size, kind
        o.const = False
        o.watch = None
        o.addr = None
        o.external = False
        o.nofree = False
        self.objs[o.id] = o
        self.fresh_n += 1
        st.mem[o.id] = content if content is not None else Base(kind, "%s#%d" % (name, o.id), lazy)
        return Ptr(o.id, 0)

    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    def fresh_bool(self, name):
        self.fresh_n += 1
        return z3.Bool("%s!%d" % (name, self.fresh_n))

    def global_ptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.names:
            return FnPtr(name)
        oid = self.gobj.get(name)
        if oid is not None and oid not in st.mem:
            st.mem[oid] = self.ginit[oid]
        if oid is None:
            t, ini, const = self.m.global_init(name)
            size = None
            try:
                size = self.m.size(t) if t else None
            except Exception:
                pass
            p = self.new_obj(st, "@" + name, size, "struct")
            oid = p.obj
            self.objs[oid].const = const
            self.gobj[name] = oid
            if ini is not None:
                c = Base("zero", name)
                st.mem[oid] = c
                self._init_const(st, oid, 0, t, ini)
            if not hasattr(self, "ginit"):
                self.ginit = {}
            self.ginit[oid] = st.mem[oid]
        return Ptr(oid, 0)

    def _init_const(self, st, oid, off, t, ini):
        k = ini[0]
        if k == "c":
            st.mem[oid] = mstore(st.mem[oid], off, self.m.size(t), ini[2])
        elif k == "agg":
            if t[0] == "arr":
                es = self.m.size(t[2])
                if es == 1 and len(ini[2]) > 64 and all(x[0] == "c" for x in ini[2]):
                    d, cov = {}, {}
                    for i, x in enumerate(ini[2]):
                        d[off + i] = (1, x[2])
                        cov[off + i] = off + i
                    st.mem[oid] = Cells(st.mem[oid], d, cov)
                    return
                for i, x in enumerate(ini[2]):
                    self._init_const(st, oid, off + i * es, t[2], x)
            elif t[0] == "st":
                for i, x in enumerate(ini[2]):
                    self._init_const(st, oid, off + t[2][i], t[1][i], x)
            else:
                raise Unsupported("const init")
        elif k in ("g", "ce", "null"):
            try:
                v = self.const(st, ini)
            except Unsupported:
                v = Opaque("global init")
            st.mem[oid] = mstore(st.mem[oid], off, 8, v)
        elif k in ("zero", "undef"):
            pass
        else:
            pass

    # ---------------- solver ----------------
    def solver(self, timeout=2000):
        s = z3.SolverFor("QF_AUFBV") if False else z3.Solver()
        s.set("timeout", timeout)
        return s

    def feasible(self, st, extra=None, timeout=1500):
        pcs = st.pc + ([extra] if extra is not None else [])
        for p in pcs:
            if z3.is_false(p):
                return False
        t = time.time()
        s = self.solver(timeout)
        s.add(*pcs)
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r != z3.unsat

    def entails_pc(self, pc, c, timeout=700):
        c = simp(b_(c))
        if isinstance(c, int):
            return bool(c)
        key = (tuple(p.get_id() for p in pc), c.get_id())
        r = self.entail_cache.get(key)
        if r is not None:
            return r[0]
        t = time.time()
        s = self.solver(timeout)
        s.add(*pc)
        s.add(z3.Not(c))
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        self.nqueries += 1
        self.entail_cache[key] = (r, pc, c)
        return r

    def entails(self, c):
        st = self.cur
        return self.entails_pc(st.pc, c)

    def entails_f(self, st, c, hints=(), timeout=3000):
        """entailment using quantified facts too"""
        c = simp(b_(c))
        if isinstance(c, int):
            return bool(c)
        if not st.facts:
            return self.entails_pc(st.pc, c)
        r, _ = discharge(Obligation("q", st.pc, st.facts, c, "", hints), timeout, self)
        return r == "proved"

    def oblige(self, st, name, goal, hints=()):
        g = simp(b_(goal))
        if isinstance(g, int) and g:
            self.obls.append(Obligation(name, (), (), z3.BoolVal(True), self.curfn(st), ()))
            return
        self.obls.append(Obligation(name, list(st.pc), list(st.facts), b_(g), self.curfn(st), hints))

    def curfn(self, st):
        return st.frames[-1].fn.name if st.frames else "?"

    # ---------------- memory access -------------
    def size_ok(self, st, p, n, what):
        o = self.objs[p.obj]
        if p.obj in st.freed:
            self.oblige(st, "memory safety: %s of freed object %s" % (what, o.name), z3.BoolVal(False))
            return
        if o.size is None or not self.check_bounds:
            return
        if isinstance(p.off, int) and isinstance(o.size, int) and isinstance(n, int):
            if p.off + n > o.size:
                self.oblige(st, "memory safety: %s out of bounds of %s" % (what, o.name), z3.BoolVal(False))
            return
        if isinstance(n, int) and n == 0:
            return
        N = bv(n, 64)
        S = bv(o.size, 64)
        O = bv(p.off, 64)
        g = z3.Or(N == 0, z3.And(z3.ULE(N, S), z3.ULE(O, S - N)))
        self.oblige(st, "memory safety: %s within bounds of %s" % (what, o.name), g)

    def deref(self, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of non-pointer %r" % (p,))
        if p.obj == 0:
            return None
        return p

    def load(self, st, p, n, isptr=False):
        self.cur = st
        self.size_ok(st, p, n, "read of %d bytes" % n if isinstance(n, int) else "read")
        if p.obj not in st.mem:
            if getattr(self, "ginit", None) and p.obj in self.ginit:
                st.mem[p.obj] = self.ginit[p.obj]
            else:
                raise Unsupported("dead object %s" % self.objs[p.obj].name)
        v = st.mem[p.obj].read(p.off, n, self, isptr)
        if isinstance(v, Ptr) and not isptr and n == 8:
            pass
        return v

    def store(self, st, p, n, v):
        self.cur = st
        self.size_ok(st, p, n, "write of %d bytes" % n)
        if self.objs[p.obj].const:
            self.oblige(st, "write to constant object", z3.BoolVal(False))
            return
        if p.obj not in st.mem and getattr(self, "ginit", None) and p.obj in self.ginit:
            st.mem[p.obj] = self.ginit[p.obj]
        if self.on_store:
            self.on_store(self, st, p, n, v, "pre")
        st.mem[p.obj] = mstore(st.mem[p.obj], p.off, n, v)
        if self.on_store:
            self.on_store(self, st, p, n, v, "post")

    def copy_bytes(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        self.cur = st
        if s.obj == 0 or d.obj == 0:
            self.oblige(st, "memory safety: memcpy with null pointer", bv(n, 64) == 0)
            if not isinstance(n, int):
                st.assume(bv(n, 64) == 0)
            return
        self.size_ok(st, s, n, "memcpy read")
        self.size_ok(st, d, n, "memcpy write")
        for q in (s, d):
            if q.obj not in st.mem and getattr(self, "ginit", None) and q.obj in self.ginit:
                st.mem[q.obj] = self.ginit[q.obj]
        src = st.mem[s.obj]
        if self.on_store:
            self.on_store(self, st, d, n, ("copy", s), "pre")
        if isinstance(n, int) and isinstance(d.off, int) and n <= 64:
            c = st.mem[d.obj]
            done = False
            if isinstance(s.off, int) and isinstance(src, (Cells, Base)):
                # copy cell-wise, keeping typed cells
                cells = []
                ok = True
                o = 0
                while o < n:
                    a = s.off + o
                    if isinstance(src, Cells) and a in src.d and not isinstance(src.d[a][1], tuple) and o + src.d[a][0] <= n:
                        k = src.d[a][0]
                        cells.append((o, k, src.d[a][1]))
                        o += k
                    elif isinstance(src, Base) and src.kind == "struct" and a in src.fields and o + src.fields[a][0] <= n:
                        k = src.fields[a][0]
                        cells.append((o, k, src.fields[a][1]))
                        o += k
                    else:
                        ok = False
                        break
                if ok:
                    for o, k, v in cells:
                        c = mstore(c, d.off + o, k, v)
                    done = True
            if not done:
                bs = [src.byte(add64(s.off, i), self) for i in range(n)] if not self._hasptr(src, s.off, n) else None
                if bs is None:
                    c = Range(c, d.off, n, src, s.off)
                else:
                    for i, x in enumerate(bs):
                        c = mstore(c, d.off + i, 1, x)
            st.mem[d.obj] = c
        else:
            st.mem[d.obj] = Range(st.mem[d.obj], simp(d.off), simp(n), src, simp(s.off))
        if self.on_store:
            self.on_store(self, st, d, n, ("copy", s), "post")

    def _hasptr(self, src, off, n):
        while True:
            if isinstance(src, Cells):
                if any(isinstance(v, (Ptr, FnPtr, Opaque)) for _, v in src.d.values()):
                    return True
                src = src.parent
            elif isinstance(src, Base):
                return any(isinstance(v, (Ptr, FnPtr, Opaque)) for _, v in src.fields.values()) or (src.kind == "struct" and src.lazy is not None)
            elif isinstance(src, SymStore):
                if isinstance(src.val, (Ptr, FnPtr, Opaque)):
                    return True
                src = src.parent
            else:
                src = src.parent

    # ---------------- values -----------------
    def const(self, st, o):
        k = o[0]
        if k == "c":
            return o[2]
        if k == "null":
            return NULL
        if k == "g":
            return self.global_ptr(st, o[1])
        if k == "undef":
            t = o[1]
            if t[0] == "i":
                return 0
            if t[0] == "ptr":
                return NULL
            if t[0] == "st":
                return tuple(self.const(st, ("undef", x)) for x in t[1])
            return Opaque("undef")
        if k == "zero":
            t = o[1]
            if t[0] == "st":
                return tuple(self.const(st, ("zero", x)) for x in t[1])
            if t[0] == "i":
                return 0
            if t[0] == "ptr":
                return NULL
            return Opaque("zero")
        if k == "agg":
            return tuple(self.const(st, x) for x in o[2])
        if k == "ce":
            if o[1] == "gep":
                base, c, terms = o[2]
                p = self.const(st, base)
                if isinstance(p, Ptr):
                    return Ptr(p.obj, add64(p.off, c & M64))
                raise Unsupported("const gep")
            if o[1] in ("bitcast", "addrspacecast"):
                return self.const(st, o[2][0])
            if o[1] == "ptrtoint":
                return self.ptr2int(st, self.const(st, o[2][0]))
            if o[1] == "inttoptr":
                return self.int2ptr(st, self.const(st, o[2][0]))
            raise Unsupported("constexpr " + o[1])
        if k == "fp":
            return Opaque("fp " + o[2])
        raise Unsupported("const " + str(o)[:60])

    def val(self, st, fr, o):
        if o[0] == "v":
            try:
                return fr.env[o[1]]
            except KeyError:
                raise Unsupported("undefined value")
        if o[0] == "c":
            return o[2]
        return self.const(st, o)

    def ptr2int(self, st, p):
        if isinstance(p, int) or z3.is_expr(p):
            return p
        if isinstance(p, FnPtr):
            return z3.BitVec("fn!" + p.name, 64)
        if isinstance(p, Opaque):
            raise Unsupported("ptrtoint of opaque")
        if p.obj == 0:
            return p.off
        o = self.objs[p.obj]
        if o.addr is None:
            o.addr = z3.BitVec("addr!%s#%d" % (o.name, o.id), 64)
        self.addr_used = True
        return add64(o.addr, p.off)

    def int2ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return Ptr(0, v)
        v = simp(v)
        for o in self.objs.values():
            if o.addr is not None:
                d = sub64(v, o.addr)
                if isinstance(d, int) or not self._mentions(d, o.addr):
                    return Ptr(o.id, d)
        raise Unsupported("inttoptr")

    def _mentions(self, e, x):
        seen = set()
        s = [e]
        while s:
            q = s.pop()
            if q.get_id() == x.get_id():
                return True
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            s.extend(q.children())
        return False

    # ---------------- integer ops ---------------
    def binop(self, op, w, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque(op)
        if isinstance(a, Ptr):
            a = self.ptr2int(None, a)
        if isinstance(b, Ptr):
            b = self.ptr2int(None, b)
        mask = (1 << w) - 1
        if w == 1:
            if op in ("and", "or", "xor", "add", "sub"):
                if isinstance(a, int) and isinstance(b, int):
                    return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a ^ b, "sub": a ^ b}[op]
                A, B = b_(a), b_(b)
                if op == "and":
                    return simp(z3.And(A, B))
                if op == "or":
                    return simp(z3.Or(A, B))
                return simp(z3.Xor(A, B))
            raise Unsupported("i1 " + op)
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == "add":
                return (a + b) & mask
            if op == "sub":
                return (a - b) & mask
            if op == "mul":
                return (a * b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & mask if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sa >> min(b, w - 1)) & mask
            if op == "udiv" and b:
                return a // b
            if op == "urem" and b:
                return a % b
            if op == "sdiv" and b:
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & mask
            if op == "srem" and b:
                r = abs(sa) % abs(sb)
                return (r if sa >= 0 else -r) & mask
        A, B = bv(a, w), bv(b, w)
        if op == "udiv" and isinstance(b, int) and b and (b & (b - 1)) == 0:
            return simp(z3.LShR(A, b.bit_length() - 1))
        if op == "urem" and isinstance(b, int) and b and (b & (b - 1)) == 0:
            return simp(A & (b - 1))
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B,
             "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B),
             "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B),
             "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B)}[op]()
        return simp(r)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, (FnPtr, Opaque)) or isinstance(b, (FnPtr, Opaque)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                if pred == "eq":
                    return int(same)
                if pred == "ne":
                    return int(not same)
            return self.fresh_bool("opaquecmp")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    a, b = a.off, b.off
                elif pred in ("eq", "ne"):
                    return 1 if pred == "ne" else 0
                elif pred in ("ugt", "uge", "ult", "ule") and (a.obj == 0 or b.obj == 0):
                    a_ = 0 if a.obj == 0 else 1
                    b__ = 0 if b.obj == 0 else 1
                    return int({"ugt": a_ > b__, "uge": a_ >= b__, "ult": a_ < b__, "ule": a_ <= b__}[pred])
                else:
                    a, b = self.ptr2int(st, a), self.ptr2int(st, b)
                w = 64
            else:
                a, b = self.ptr2int(st, a), self.ptr2int(st, b)
                w = 64
        else:
            w = ty[1] if ty[0] == "i" else 64
        if w == 1:
            A, B = b_(a), b_(b)
            if pred == "eq":
                return simp(A == B)
            if pred == "ne":
                return simp(A != B)
            return simp({"ugt": z3.And(A, z3.Not(B)), "ult": z3.And(z3.Not(A), B), "uge": z3.Or(A, z3.Not(B)),
                         "ule": z3.Or(z3.Not(A), B)}[pred])
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return int({"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                        "sgt": sa > sb, "sge": sa >= sb, "slt": sa < sb, "sle": sa <= sb}[pred])
        A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
             "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "sgt": lambda: A > B, "sge": lambda: A >= B,
             "slt": lambda: A < B, "sle": lambda: A <= B}[pred]()
        return simp(r)

    # ---------------- execution ------------------
    def push_frame(self, st, fn, args, ret=None, invoke=None):
        f = Frame()
        f.fn = fn
        f.env = {}
        for i, a in zip(fn.args, args):
            f.env[i] = a
        f.blk = 0
        f.ip = 0
        f.prev = None
        f.ret = ret
        f.invoke = invoke
        f.allocas = []
        f.loopmode = {}
        f.tag = None
        st.frames.append(f)
        if len(st.frames) > self.lim.inline_depth:
            raise Unsupported("inline depth (recursion?) in " + fn.name)

    def run_function(self, st, name, args):
        fn = self.m.func(name)
        if fn is None or fn.decl:
            raise Unsupported("no body for " + name)
        self.push_frame(st, fn, args)
        depth0 = len(st.frames)
        outs = self.explore([st], None, depth0)
        return outs

    def explore(self, work, stop, base_depth):
        """run all states to the return of frame at base_depth (or to stop())"""
        done = []
        work = list(work)
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
            st = work.pop()
            r = self.step_until_fork(st, stop, base_depth, done)
            work.extend(reversed(r))
            if len(done) > self.lim.paths:
                raise Unsupported("too many paths")
        return done

    def goto(self, st, fr, to):
        """phi evaluation + transfer"""
        frm = fr.blk
        B = fr.fn.blocks[to]
        if B.phis:
            vals = []
            for p in B.phis:
                vals.append(self.val(st, fr, p.x[frm]))
            for p, v in zip(B.phis, vals):
                fr.env[p.res] = v
        fr.prev = frm
        fr.blk = to
        fr.ip = 0

    def step_until_fork(self, st, stop, base_depth, done):
        while True:
            fr = st.frames[-1]
            I = fr.fn.blocks[fr.blk].ins[fr.ip]
            op = I.op
            h = getattr(self, "op_" + op, None)
            if h is not None:
                h(st, fr, I)
                fr.ip += 1
                continue
            # control flow
            if op == "br":
                r = self.transfer(st, fr, I.x[0], stop, base_depth, done)
                if r is not None:
                    return r
                continue
            if op == "condbr":
                c = simp(b_(self.val(st, fr, I.ops[0]))) if not isinstance(self.val(st, fr, I.ops[0]), (Opaque,)) else self.fresh_bool("opq")
                if I.x[0] == I.x[1]:
                    c = 1
                if isinstance(c, int):
                    r = self.transfer(st, fr, I.x[0] if c else I.x[1], stop, base_depth, done)
                    if r is not None:
                        return r
                    continue
                nc = z3.simplify(z3.Not(c))
                ids = {p.get_id() for p in st.pc}
                if c.get_id() in ids:
                    t, f = True, False
                elif nc.get_id() in ids:
                    t, f = False, True
                else:
                    t = self.feasible(st, c)
                    f = self.feasible(st, nc) if t else True
                outs = []
                if t and f:
                    st2 = st.fork()
                    st.pc.append(c)
                    st2.pc.append(nc)
                    r1 = self.transfer(st, st.frames[-1], I.x[0], stop, base_depth, done)
                    outs.extend([st] if r1 is None else r1)
                    r2 = self.transfer(st2, st2.frames[-1], I.x[1], stop, base_depth, done)
                    outs.extend([st2] if r2 is None else r2)
                    return outs
                if t:
                    st.pc.append(c)
                    r = self.transfer(st, fr, I.x[0], stop, base_depth, done)
                else:
                    st.pc.append(nc)
                    r = self.transfer(st, fr, I.x[1], stop, base_depth, done)
                if r is not None:
                    return r
                continue
            if op == "switch":
                v = self.val(st, fr, I.ops[0])
                default, cases = I.x
                if isinstance(v, int):
                    to = default
                    for cv, b in cases:
                        if cv == v:
                            to = b
                    r = self.transfer(st, fr, to, stop, base_depth, done)
                    if r is not None:
                        return r
                    continue
                outs = []
                w = v.size()
                groups = {}
                for cv, b in cases:
                    groups.setdefault(b, []).append(cv)
                alts = []
                for b, cvs in groups.items():
                    if b == default:
                        continue
                    alts.append((b, z3.Or(*[v == cv for cv in cvs])))
                others = [v != cv for cv, b in cases if b != default]
                alts.append((default, z3.And(*others) if others else z3.BoolVal(True)))
                for b, c in alts:
                    c = z3.simplify(c)
                    if self.feasible(st, c):
                        s2 = st.fork()
                        s2.assume(c)
                        r = self.transfer(s2, s2.frames[-1], b, stop, base_depth, done)
                        outs.extend([s2] if r is None else r)
                return outs
            if op == "ret":
                v = self.val(st, fr, I.ops[0]) if I.ops else None
                r = self.do_return(st, v, stop, base_depth, done)
                if r is not None:
                    return r
                continue
            if op in ("call", "invoke"):
                r = self.do_call(st, fr, I, stop, base_depth, done)
                if r is not None:
                    return r
                continue
            if op == "unreachable":
                # reaching it is UB (or after a noreturn call)
                self.oblige(st, "unreachable code reached in " + fr.fn.name, z3.BoolVal(False))
                return []
            if op == "resume":
                v = self.val(st, fr, I.ops[0])
                r = self.unwind(st, stop, base_depth, done)
                if r is not None:
                    return r
                continue
            raise Unsupported("op " + op)

    def kill_allocas(self, st, fr):
        for a in fr.allocas:
            st.mem.pop(a, None)
            st.freed = st.freed | {a}

    def do_return(self, st, v, stop, base_depth, done):
        fr = st.frames[-1]
        if len(st.frames) == base_depth and stop is None:
            st.result = ("ret", v)
            done.append(st)
            self.npaths += 1
            return []
        if stop is not None and len(st.frames) == base_depth:
            stop(st, "ret", None, v)
        self.kill_allocas(st, fr)
        st.frames.pop()
        if not st.frames:
            st.result = ("ret", v)
            done.append(st)
            self.npaths += 1
            return []
        c = st.frames[-1]
        if fr.ret is not None and v is not None:
            c.env[fr.ret] = v
        if fr.invoke is not None:
            return self.transfer(st, c, fr.invoke[0], stop, base_depth, done)
        c.ip += 1
        return None

    def throw(self, st, typ, val, stop, base_depth, done):
        st.xc = (typ, val)
        # thrown from the current instruction of the current frame
        fr = st.frames[-1]
        I = fr.fn.blocks[fr.blk].ins[fr.ip]
        if I.op == "invoke":
            return self.transfer(st, fr, I.x[3], stop, base_depth, done)
        return self.unwind(st, stop, base_depth, done)

    def unwind(self, st, stop, base_depth, done):
        while True:
            fr = st.frames[-1]
            if len(st.frames) == base_depth and stop is None:
                st.result = ("throw", st.xc)
                done.append(st)
                return []
            if stop is not None and len(st.frames) == base_depth:
                st.result = ("throw", st.xc)
                done.append(st)
                return []
            self.kill_allocas(st, fr)
            st.frames.pop()
            if not st.frames:
                st.result = ("throw", st.xc)
                done.append(st)
                return []
            if fr.invoke is not None:
                return self.transfer(st, st.frames[-1], fr.invoke[1], stop, base_depth, done)

    # transfer: handles loops
    def transfer(self, st, fr, to, stop, base_depth, done):
        frm = fr.blk
        if stop is not None and len(st.frames) == base_depth:
            tag = stop(st, frm, to, None)
            if tag is not None:
                if tag[1]:
                    self.goto(st, fr, to)
                st.result = (tag[0], to)
                done.append(st)
                return []
        loops = llir.find_loops(fr.fn)
        if to in loops:
            inside = frm in loops[to]
            self.goto(st, fr, to)
            return self.at_header(st, fr, to, loops[to], inside, stop, base_depth, done)
        self.goto(st, fr, to)
        return None

    def at_header(self, st, fr, h, body, inside, stop, base_depth, done):
        import loops as LP
        return LP.at_header(self, st, fr, h, body, inside, stop, base_depth, done)

    # ---------------- simple instructions -------------
    def op_alloca(self, st, fr, I):
        if not (I.ops and I.ops[0][0] == "c"):
            raise Unsupported("dynamic alloca")
        sz = I.x * I.ops[0][2]
        p = self.new_obj(st, "local." + fr.fn.name[-24:], sz, "struct")
        self.objs[p.obj].kind = "stack"
        fr.allocas.append(p.obj)
        fr.env[I.res] = p

    def conv_load(self, st, v, ty):
        if ty[0] == "ptr":
            if isinstance(v, (Ptr, FnPtr, Opaque)):
                return v
            return self.int2ptr(st, v)
        if ty[0] == "i":
            if isinstance(v, (Ptr, FnPtr)):
                return self.ptr2int(st, v)
            if isinstance(v, Opaque):
                return v
            w = ty[1]
            sw = 8 * ((w + 7) // 8)
            if w == sw:
                return v
            if w == 1:
                if isinstance(v, int):
                    return v & 1
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            return simp(z3.Extract(w - 1, 0, v))
        return v if isinstance(v, (Opaque, tuple)) else Opaque("fpload")

    def rd(self, st, p, ty):
        if ty[0] == "st":
            return tuple(self.rd(st, Ptr(p.obj, add64(p.off, o)), t) for t, o in zip(ty[1], ty[2]))
        if ty[0] in ("f", "vec", "arr", "other"):
            n = self.m.size(ty)
            try:
                v = self.load(st, p, n)
                if isinstance(v, Opaque):
                    return v
            except Unsupported:
                pass
            return Opaque("load " + ty[0])
        n = (ty[1] + 7) // 8 if ty[0] == "i" else self.m.size(ty)
        return self.conv_load(st, self.load(st, p, n, ty[0] == "ptr"), ty)

    def wr(self, st, p, ty, v):
        if ty[0] == "st":
            for t, o, x in zip(ty[1], ty[2], v):
                self.wr(st, Ptr(p.obj, add64(p.off, o)), t, x)
            return
        n = (ty[1] + 7) // 8 if ty[0] == "i" else self.m.size(ty)
        if ty[0] == "i" and not isinstance(v, (Ptr, FnPtr, Opaque)):
            w = ty[1]
            sw = 8 * n
            if w != sw:
                if w == 1:
                    v = simp(z3.If(b_(v), z3.BitVecVal(1, sw), z3.BitVecVal(0, sw))) if not isinstance(v, int) else v
                elif not isinstance(v, int):
                    v = simp(z3.ZeroExt(sw - w, v))
        self.store(st, p, n, v)

    def need_ptr(self, st, p, what):
        if isinstance(p, Opaque):
            raise Unsupported("opaque pointer " + what)
        if not isinstance(p, Ptr):
            raise Unsupported("bad pointer %r in %s" % (p, what))
        if p.obj == 0:
            self.oblige(st, "memory safety: null dereference (%s) in %s" % (what, self.curfn(st)), z3.BoolVal(False))
            return False
        return True

    def op_load(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        if not self.need_ptr(st, p, "load"):
            fr.env[I.res] = NULL if I.ty[0] == "ptr" else (self.fresh("nullload", I.ty[1]) if I.ty[0] == "i" else Opaque())
            st.pc.append(z3.BoolVal(False))
            return
        fr.env[I.res] = self.rd(st, p, I.ty)

    def op_store(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        p = self.val(st, fr, I.ops[1])
        if not self.need_ptr(st, p, "store"):
            st.pc.append(z3.BoolVal(False))
            return
        self.wr(st, p, I.x[0], v)

    def op_gep(self, st, fr, I):
        base, c, terms = I.x
        p = self.val(st, fr, base)
        if isinstance(p, Opaque):
            fr.env[I.res] = p
            return
        if isinstance(p, FnPtr):
            raise Unsupported("gep on fn")
        off = add64(p.off, c & M64)
        for o, sc in terms:
            v = self.val(st, fr, o)
            if isinstance(v, Opaque):
                raise Unsupported("opaque index")
            w = 64
            if not isinstance(v, int):
                w = v.size()
                if w < 64:
                    v = z3.SignExt(64 - w, v)
            else:
                tw = self.opwidth(fr, o)
                if tw < 64 and v >> (tw - 1):
                    v = (v - (1 << tw)) & M64
            off = add64(off, self.binop("mul", 64, v, sc))
        fr.env[I.res] = Ptr(p.obj, off)

    def opwidth(self, fr, o):
        if o[0] == "c":
            return o[1]
        # width of an SSA value that is concrete here
        ty = self.valty(fr.fn, o[1])
        return ty[1] if ty and ty[0] == "i" else 64

    def valty(self, fn, vid):
        t = getattr(self, "_vt", None)
        if t is None:
            t = self._vt = {}
        d = t.get(fn.name)
        if d is None:
            d = {}
            for a, ty in zip(fn.args, fn.argtys):
                d[a] = ty
            for b in fn.blocks:
                for p in b.phis:
                    d[p.res] = p.ty
                for i in b.ins:
                    if i.res is not None:
                        d[i.res] = i.ty
            t[fn.name] = d
        return d.get(vid)

    def op_trunc(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        w = I.ty[1]
        if isinstance(v, Opaque):
            fr.env[I.res] = v
        elif isinstance(v, int):
            fr.env[I.res] = v & ((1 << w) - 1)
        elif isinstance(v, Ptr):
            fr.env[I.res] = simp(z3.Extract(w - 1, 0, bv(self.ptr2int(st, v), 64)))
        elif w == 1:
            fr.env[I.res] = simp(z3.Extract(0, 0, v) == 1)
        else:
            fr.env[I.res] = simp(z3.Extract(w - 1, 0, v))

    def lift(self, st, e, w):
        """64-bit expression whose low w bits are e, built from 64-bit counters inside e
        (used only after proving that the extension of e equals it)"""
        hit = [False]

        def go(x, d):
            if d > 12:
                return None
            k = x.decl().kind()
            if k == z3.Z3_OP_EXTRACT:
                hi, lo = x.params()
                a = x.arg(0)
                if lo == 0 and hi == w - 1 and a.size() == 64:
                    hit[0] = True
                    return a
                return None
            if z3.is_bv_value(x):
                c = x.as_long()
                return z3.BitVecVal(c - (1 << w) if c >> (w - 1) else c, 64)
            if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
                cs = [go(c, d + 1) for c in x.children()]
                if any(c is None for c in cs):
                    return None
                r = cs[0]
                for c in cs[1:]:
                    r = r + c if k == z3.Z3_OP_BADD else r * c if k == z3.Z3_OP_BMUL else r - c
                return r
            if k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0 or k in (z3.Z3_OP_ITE, z3.Z3_OP_SELECT):
                return z3.SignExt(64 - w, x)
            return None
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            return None
        r = go(e, 0)
        return r if r is not None and hit[0] else None

    def op_zext(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        w0, w = I.x[1], I.ty[1]
        if isinstance(v, (int, Opaque)):
            fr.env[I.res] = v
        elif w0 == 1:
            fr.env[I.res] = simp(z3.If(b_(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        else:
            l = self.lift(st, v, w0) if w == 64 and w0 == 32 else None
            if l is not None and self.entails_pc(st.pc, z3.ZeroExt(w - w0, v) == l):
                fr.env[I.res] = simp(l)
            else:
                fr.env[I.res] = simp(z3.ZeroExt(w - w0, v))

    def op_sext(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        w0, w = I.x[1], I.ty[1]
        if isinstance(v, Opaque):
            fr.env[I.res] = v
        elif isinstance(v, int):
            if v >> (w0 - 1):
                v = (v - (1 << w0)) & ((1 << w) - 1)
            fr.env[I.res] = v
        elif w0 == 1:
            fr.env[I.res] = simp(z3.If(b_(v), z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))
        else:
            l = self.lift(st, v, w0) if w == 64 and w0 == 32 else None
            if l is not None and self.entails_pc(st.pc, z3.SignExt(w - w0, v) == l):
                fr.env[I.res] = simp(l)
            else:
                fr.env[I.res] = simp(z3.SignExt(w - w0, v))

    def op_ptrtoint(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        r = self.ptr2int(st, v)
        if I.ty[1] < 64:
            r = simp(z3.Extract(I.ty[1] - 1, 0, bv(r, 64)))
        fr.env[I.res] = r

    def op_inttoptr(self, st, fr, I):
        fr.env[I.res] = self.int2ptr(st, self.val(st, fr, I.ops[0]))

    def op_bitcast(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        fr.env[I.res] = v if I.ty[0] in ("ptr", "i") else Opaque("bitcast")

    def op_freeze(self, st, fr, I):
        fr.env[I.res] = self.val(st, fr, I.ops[0])

    def op_icmp(self, st, fr, I):
        fr.env[I.res] = self.icmp(st, I.x[0], I.x[1], self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1]))

    def op_fcmp(self, st, fr, I):
        fr.env[I.res] = self.fresh_bool("fcmp")

    def op_select(self, st, fr, I):
        c = simp(b_(self.val(st, fr, I.ops[0]))) if not isinstance(self.val(st, fr, I.ops[0]), Opaque) else self.fresh_bool("sel")
        a, b = self.val(st, fr, I.ops[1]), self.val(st, fr, I.ops[2])
        if isinstance(c, int):
            fr.env[I.res] = a if c else b
            return
        if isinstance(a, (Ptr, FnPtr, Opaque)) or isinstance(b, (Ptr, FnPtr, Opaque)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                fr.env[I.res] = Ptr(a.obj, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
                return
            if self.entails_pc(st.pc, c):
                fr.env[I.res] = a
                return
            if self.entails_pc(st.pc, z3.Not(c)):
                fr.env[I.res] = b
                return
            raise Fork(c, a, b, I.res)
        w = I.ty[1]
        if w == 1:
            fr.env[I.res] = simp(z3.If(c, b_(a), b_(b)))
        else:
            fr.env[I.res] = simp(z3.If(c, bv(a, w), bv(b, w)))

    def op_extractvalue(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        for i in I.x:
            if isinstance(v, Opaque):
                break
            v = v[i]
        fr.env[I.res] = v

    def op_insertvalue(self, st, fr, I):
        def ins(v, ix, x):
            l = list(v)
            l[ix[0]] = x if len(ix) == 1 else ins(l[ix[0]], ix[1:], x)
            return tuple(l)
        fr.env[I.res] = ins(self.val(st, fr, I.ops[0]), I.x, self.val(st, fr, I.ops[1]))

    def op_landingpad(self, st, fr, I):
        typ, val = st.xc if st.xc else (None, None)
        cl, cleanup = I.x
        sel = 0
        for n, c in enumerate(cl):
            if c[0] == "null":
                sel = 1000
                break
            if c[0] == "g" and typ is not None and c[1] == typ:
                sel = self.typeid(c[1])
                break
        st.xc = (typ, val)
        fr.env[I.res] = (val if isinstance(val, Ptr) else NULL, sel)
        if sel == 0 and not cleanup:
            # nothing caught here and no cleanup: continue unwinding is done by the personality
            pass

    def typeid(self, name):
        d = getattr(self, "_tids", None)
        if d is None:
            d = self._tids = {}
        return d.setdefault(name, len(d) + 1)

    def op_fence(self, st, fr, I):
        st.event("fence")

    def op_atomicrmw(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        v = self.val(st, fr, I.ops[1])
        old = self.rd(st, p, I.ty)
        w = I.ty[1] if I.ty[0] == "i" else 64
        op = I.x
        if op == "xchg":
            new = v
        elif op in ("add", "sub", "and", "or", "xor"):
            new = self.binop(op, w, old, v)
        elif op in ("umax", "max"):
            new = simp(z3.If(z3.UGT(bv(old, w), bv(v, w)) if op == "umax" else bv(old, w) > bv(v, w), bv(old, w), bv(v, w)))
        else:
            raise Unsupported("rmw " + op)
        self.wr(st, p, I.ty, new)
        fr.env[I.res] = old

    def op_cmpxchg(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        e = self.val(st, fr, I.ops[1])
        n = self.val(st, fr, I.ops[2])
        ty = I.x
        old = self.rd(st, p, ty)
        c = simp(b_(self.icmp(st, "eq", ty, old, e)))
        if isinstance(c, int):
            if c:
                self.wr(st, p, ty, n)
            fr.env[I.res] = (old, c)
            return
        w = ty[1]
        self.wr(st, p, ty, simp(z3.If(c, bv(n, w), bv(old, w))))
        fr.env[I.res] = (old, c)

    def _fp(self, st, fr, I):
        if I.ty[0] == "i":
            fr.env[I.res] = self.fresh("fp2int", I.ty[1])
        else:
            fr.env[I.res] = Opaque(I.op)
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = op_fneg = op_fptoui = op_fptosi = op_uitofp = op_sitofp = op_fptrunc = op_fpext = _fp

    # ---------------- calls -----------------
    def do_call(self, st, fr, I, stop, base_depth, done):
        callee = I.x[0]
        args = [self.val(st, fr, o) for o in I.ops]
        if callee[0] == "asm":
            raise Unsupported("inline asm")
        if callee[0] == "g":
            name = callee[1]
        else:
            f = self.val(st, fr, callee)
            if not isinstance(f, FnPtr):
                raise Unsupported("indirect call in " + fr.fn.name)
            name = f.name
        name = self.m.aliases.get(name, name)
        self.cur = st
        self.curargtys = I.x[1]
        # 1. contract
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            outs = c.apply(self, st, args)
            return self.finish_call(st, I, outs, stop, base_depth, done)
        # 2. builtin
        import builtins_ as BI
        b = self.builtin_override.get(name) or BI.lookup(self, name)
        if b is not None:
            outs = b(self, st, args, I)
            return self.finish_call(st, I, outs, stop, base_depth, done)
        fn = self.m.func(name)
        if fn is None or fn.decl:
            raise Unsupported("external function " + name)
        self.inlined.add(name)
        self.push_frame(st, fn, args, I.res if I.ty[0] != "void" else None,
                        (I.x[2], I.x[3]) if I.op == "invoke" else None)
        return None

    def finish_call(self, st, I, outs, stop, base_depth, done):
        """outs: value (single), or list of (state, kind, value)"""
        if not isinstance(outs, list):
            outs = [(st, "ret", outs)]
        if len(outs) == 1 and outs[0][1] == "ret" and outs[0][0] is st:
            fr = st.frames[-1]
            if I.res is not None and I.ty[0] != "void":
                fr.env[I.res] = outs[0][2]
            if I.op == "invoke":
                return self.transfer(st, fr, I.x[2], stop, base_depth, done)
            fr.ip += 1
            return None
        res = []
        for s, kind, v in outs:
            if any(z3.is_false(p) for p in s.pc):
                continue
            fr = s.frames[-1]
            if kind == "ret":
                if I.res is not None and I.ty[0] != "void":
                    fr.env[I.res] = v
                if I.op == "invoke":
                    r = self.transfer(s, fr, I.x[2], stop, base_depth, done)
                    res.extend([s] if r is None else r)
                else:
                    fr.ip += 1
                    res.append(s)
            elif kind == "throw":
                r = self.throw(s, v[0], v[1], stop, base_depth, done)
                res.extend([s] if r is None else r)
            elif kind == "noreturn":
                pass
        return res

    notes = None


class Fork(Exception):
    def __init__(self, c, a, b, res):
        self.c, self.a, self.b, self.res = c, a, b, res


_orig_step = Executor.step_until_fork


def _step(self, st, stop, base_depth, done):
    try:
        return _orig_step(self, st, stop, base_depth, done)
    except Fork as f:
        s2 = st.fork()
        st.pc.append(f.c)
        s2.pc.append(z3.simplify(z3.Not(f.c)))
        st.frames[-1].env[f.res] = f.a
        st.frames[-1].ip += 1
        s2.frames[-1].env[f.res] = f.b
        s2.frames[-1].ip += 1
        return [st, s2]


Executor.step_until_fork = _step


# ---------------------------------------------------------------- discharge
def instantiate(ob, extra_terms=()):
    """ground instances of the quantified facts, by index-term matching"""
    asserts = list(ob.pc) + [z3.Not(ob.goal)]
    insts = []
    seen_inst = set()
    seen = {}
    table = {}
    frontier = list(asserts)
    for rnd in range(4):
        collect_index_terms(frontier, seen, table)
        frontier = []
        for fi, f in enumerate(ob.facts):
            cands = []
            if rnd == 0:
                cands += list(f.hints) + list(ob.hints) + list(extra_terms)
            for (kind, ai, t0, d, _k) in f.triggers():
                for (aj, _), (_, idx) in list(table.get(kind, {}).items()):
                    if aj != ai:
                        continue
                    x = sub64(idx, t0)
                    if d == 1:
                        cands.append(x)
                    elif d == -1:
                        cands.append(sub64(0, x))
                    elif d > 0:
                        cands.append(simp(z3.UDiv(bv(x, 64), z3.BitVecVal(d, 64))))
            for cnd in cands:
                cnd = simp(cnd)
                k = (fi, cnd if isinstance(cnd, int) else ("e", cnd.get_id()))
                if k in seen_inst:
                    continue
                seen_inst.add(k)
                if len(seen_inst) > 6000:
                    return insts
                e = f.inst(cnd)
                insts.append(e)
                frontier.append(e)
        if not frontier:
            break
    return insts


def discharge(ob, timeout=10000, X=None):
    """-> ('proved'|'failed'|'unknown', model or None)"""
    g = ob.goal
    if z3.is_true(g):
        return "proved", None
    t0 = time.time()
    try:
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*ob.pc)
        s.add(z3.Not(g))
        if not ob.facts:
            r = s.check()
        else:
            # cheap attempt without facts first
            s.set("timeout", min(timeout, 400))
            r = s.check()
            if r != z3.unsat:
                insts = instantiate(ob)
                s = z3.Solver()
                s.set("timeout", timeout)
                s.add(*ob.pc)
                s.add(z3.Not(g))
                s.add(*insts)
                r = s.check()
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "failed", s.model()
        return "unknown", s.to_smt2()
    finally:
        if X is not None:
            X.solver_time += time.time() - t0
            X.nqueries += 1


def _mk_bin(op):
    def h(self, st, fr, I):
        a, b = self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1])
        w = I.ty[1] if I.ty[0] == "i" else 64
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            fr.env[I.res] = sub64(a.off, b.off)
            return
        fr.env[I.res] = self.binop(op, w, a, b)
    return h


for _o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
    setattr(Executor, "op_" + _o, _mk_bin(_o))
