"""Loops: concrete execution, exact first-exit summarisation, contract-supplied
invariants, or unrolling (complete: exceeding the bound is an error, not a
silent cut)."""
import z3
from mem import (Ptr, Unsupported, Opaque, FnPtr, Base, Cells, SymStore, Range, bv, b_, simp, add64, sub64,
                 delta, to_bytes, M64)


def run_iter(X, st, h, body):
    """execute one iteration from header h (phis already evaluated)"""
    depth = len(st.frames)

    def stop(s, frm, to, v):
        if frm == "ret":
            raise Unsupported("return inside loop body")
        if to == h:
            return ("back", True)
        if to not in body:
            return ("exit", False)
        return None
    return X.explore([st], stop, depth)


def at_header(X, st, fr, h, body, inside, ostop, obase, odone):
    if inside:
        # only reached through run_iter's stop(); a plain transfer inside means
        # an irreducible entry
        raise Unsupported("loop re-entered outside of loop driver")
    spec = X.loop_spec(st, fr, h) if hasattr(X, "loop_spec") else None
    results = []
    if spec is not None:
        outs = spec.run(X, st, fr, h, body)
        results = outs
    else:
        results = drive(X, st, h, body)
    final = []
    for s in results:
        kind = s.result[0]
        if kind == "exit":
            to = s.result[1]
            s.result = None
            r = X.transfer(s, s.frames[-1], to, ostop, obase, odone)
            final.extend([s] if r is None else r)
        elif kind == "throw":
            s.result = None
            r = X.unwind(s, ostop, obase, odone)
            final.extend([s] if r is None else r)
        else:
            raise Unsupported("loop result " + str(kind))
    return final


def drive(X, st, h, body, budget=None):
    """-> list of states with result ('exit', to) or ('throw', ..)"""
    results = []
    work = [(st, 0, True)]
    fname = st.frames[-1].fn.name
    while work:
        s, n, try_sum = work.pop()
        if n > X.lim.unroll:
            raise Unsupported("unroll bound exceeded in " + fname)
        nob = len(X.obls)
        save = s.fork()
        outs = run_iter(X, s, h, body)
        backs = [o for o in outs if o.result[0] == "back"]
        if not backs:
            results.extend(outs)
            continue
        if len(outs) == 1 and not same_pc_forked(save, outs[0]):
            o = outs[0]
            o.result = None
            work.append((o, n + 1, try_sum))
            continue
        if try_sum:
            obs = X.obls[nob:]
            del X.obls[nob:]
            try:
                r = summarise(X, save, h, body)
                results.extend(r)
                continue
            except NoSummary as e:
                X.notes.append("loop in %s not summarised: %s" % (fname, e)) if hasattr(X, "notes") else None
                X.obls.extend(obs)
        for o in outs:
            if o.result[0] == "back":
                o.result = None
                work.append((o, n + 1, False))
            else:
                results.append(o)
    return results


def same_pc_forked(a, b):
    """did the iteration branch on something symbolic (learned a condition)?"""
    return len(b.pc) > len(a.pc) + 0 and False


class NoSummary(Exception):
    pass


def _flat_cells(c):
    return c.d if isinstance(c, Cells) else {}


def _changed_cells(old, new):
    """content new derived from old by constant-offset stores only -> {(off,n)} or None"""
    if new is old:
        return set()
    if isinstance(new, Cells):
        base_new = new.parent
        if isinstance(old, Cells):
            if base_new is not old.parent:
                return None
            ch = set()
            for o, (n, v) in new.d.items():
                ov = old.d.get(o)
                if ov is None or ov[0] != n or not _same(ov[1], v):
                    ch.add((o, n))
            return ch
        if base_new is old:
            return {(o, n) for o, (n, v) in new.d.items()}
    return None


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and delta(a.off, b.off) == 0
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def consts_of(e, acc):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


class Var:
    __slots__ = ("kind", "key", "w", "init", "obj", "sym", "step", "g", "mode", "K", "fit")

    def fitc(self, k):
        """the 64-bit counter k has the same value as the 32-bit loop variable"""
        if self.fit == "n31":
            return z3.ULT(k, 1 << 31)
        if self.fit == "u":
            return z3.ULT(k, 1 << 32)
        return z3.SignExt(32, z3.Extract(31, 0, k)) == k


def summarise(X, st, h, body):
    fr = st.frames[-1]
    fname = fr.fn.name
    phis = fr.fn.blocks[h].phis
    nob = len(X.obls)
    vars_ = []

    def mkvar(kind, key, v, w):
        V = Var()
        V.kind, V.key, V.w, V.init = kind, key, w, v
        V.obj = None
        V.step = None
        V.g = None
        if isinstance(v, Ptr):
            V.obj = v.obj
            V.init = v.off
            V.w = 64
        elif isinstance(v, (FnPtr, Opaque, tuple)):
            raise NoSummary("phi kind")
        nm = "L%d!%s" % (X.fresh_n, len(vars_))
        V.K = V.fit = None
        if V.w == 32 and kind == "phi":
            V.K = z3.BitVec(nm + "k", 64)
            V.sym = z3.Extract(31, 0, V.K)
            i64 = z3.SignExt(32, bv(V.init, 32))
            V.fit = "n31" if X.entails_pc(st.pc, i64 >= 0) else "s"
        else:
            V.sym = z3.BitVec(nm, V.w) if V.w > 1 else z3.Bool(nm)
        X.fresh_n += 1
        vars_.append(V)
        return V
    for p in phis:
        mkvar("phi", p.res, fr.env[p.res], p.ty[1] if p.ty[0] == "i" else 64)

    def setv(s, V, val):
        v = Ptr(V.obj, val) if V.obj is not None else val
        if V.kind == "phi":
            s.frames[-1].env[V.key] = v
        else:
            oid, off, n = V.key
            from mem import store
            s.mem[oid] = store(s.mem[oid], off, n, v)

    def getv(s, V):
        if V.kind == "phi":
            v = s.frames[-1].env[V.key]
        else:
            oid, off, n = V.key
            X.cur = s
            v = s.mem[oid].read(off, n, X, V.obj is not None)
        if V.obj is not None:
            if not isinstance(v, Ptr) or v.obj != V.obj:
                raise NoSummary("pointer phi changes object")
            return v.off
        if isinstance(v, (Ptr, Opaque, FnPtr, tuple)):
            raise NoSummary("phi kind changes")
        return v

    def symvals(s):
        for V in vars_:
            setv(s, V, V.sym)
            if V.fit:
                s.assume(V.fitc(V.K))

    # phase 1: discover loop-carried cells
    for rnd in range(8):
        s1 = st.fork()
        symvals(s1)
        base_mem = dict(s1.mem)
        npc = len(s1.pc)
        try:
            outs = run_iter(X, s1.fork(), h, body)
        finally:
            del X.obls[nob:]
        backs = [o for o in outs if o.result[0] == "back"]
        if not backs:
            raise NoSummary("no back edge")
        new_cells = set()
        stores = {}
        for b in backs:
            if b.trace != s1.trace:
                raise NoSummary("events in loop")
            if b.ghost != s1.ghost:
                raise NoSummary("ghost effects in loop")
            for oid, c0 in base_mem.items():
                c1 = b.mem.get(oid)
                if c1 is c0:
                    continue
                if c1 is None:
                    raise NoSummary("object dies")
                ch = _changed_cells(c0, c1)
                if ch is not None:
                    for (o, n) in ch:
                        if not any(V.kind == "cell" and V.key == (oid, o, n) for V in vars_):
                            new_cells.add((oid, o, n))
                    continue
                if isinstance(c1, SymStore) and c1.parent is c0:
                    stores.setdefault(oid, []).append(c1)
                    continue
                if isinstance(c1, Range) and c1.parent is c0 and isinstance(c1.n, int):
                    stores.setdefault(oid, []).append(c1)
                    continue
                raise NoSummary("memory effect on " + X.objs[oid].name)
        refit = False
        for V in vars_:
            if not V.fit:
                continue
            ok = True
            for b in backs:
                nv = getv(b, V)
                d = simp(bv(nv, 32) - V.sym)
                if not isinstance(d, int):
                    ok = None
                    break
                d = d - (1 << 32) if d >> 31 else d
                if not X.entails_pc(b.pc, V.fitc(V.K + d)):
                    ok = False
            if ok is False:
                V.fit = {"n31": "u", "s": "u", "u": None}[V.fit]
                if V.fit == "u" and not X.entails_pc(st.pc, bv(V.init, 32) >= 0):
                    V.fit = None
                refit = True
        if refit and not new_cells:
            continue
        if new_cells:
            for (oid, o, n) in sorted(new_cells):
                X.cur = st
                isp = any(isinstance(_cellval(b.mem[oid], o), Ptr) for b in backs)
                try:
                    v0 = st.mem[oid].read(o, n, X, isp)
                except Unsupported as e:
                    raise NoSummary(str(e))
                mkvar("cell", (oid, o, n), v0, 8 * n)
            continue
        break
    else:
        raise NoSummary("cells do not stabilise")

    # phase 2: closed forms
    def sname(V):
        return (V.K if V.K is not None else V.sym).decl().name()
    syms = {sname(V) for V in vars_}
    for V in vars_:
        steps = []
        for b in backs:
            nv = getv(b, V)
            if V.w == 1:
                steps.append(("expr", nv))
                continue
            d = simp(bv(nv, V.w) - V.sym)
            steps.append(("step", d) if isinstance(d, int) else ("expr", nv))

        if all(k == "step" for k, _ in steps) and len({d for _, d in steps}) == 1:
            V.step = steps[0][1]
            V.mode = "affine"
        else:
            V.mode = "derived"
            e0 = getv(backs[0], V)
            for b in backs[1:]:
                if not _same(e0, getv(b, V)):
                    raise NoSummary("different updates of a loop variable")
            V.g = e0
    # invariant-direction loop variables compare only through expressions of affine ones
    aff = {sname(V) for V in vars_ if V.mode == "affine"}
    for V in vars_:
        if V.mode == "derived" and not isinstance(V.g, int):
            cs = consts_of(b_(V.g) if V.w == 1 else V.g, set())
            if cs & (syms - aff):
                raise NoSummary("non-affine loop variable in " + fname)

    X.fresh_n += 1
    N = z3.BitVec("N!%d" % X.fresh_n, 64)

    def k_at(V, n):
        """64-bit counter of a 32-bit affine variable"""
        i = V.init
        if isinstance(i, int):
            i64 = i - (1 << 32) if i >> 31 else i
        else:
            i64 = None
            if i.decl().kind() == z3.Z3_OP_EXTRACT and i.params() == [31, 0] and i.arg(0).size() == 64 and \
                    X.entails_pc(st.pc, z3.SignExt(32, i) == i.arg(0)):
                i64 = i.arg(0)
            if i64 is None:
                i64 = z3.SignExt(32, i)
        d = V.step - (1 << 32) if V.step >> 31 else V.step
        if V.fit:
            return simp(bv(i64 & M64 if isinstance(i64, int) else i64, 64) + bv(n, 64) * z3.BitVecVal(d, 64))
        return simp(z3.SignExt(32, bv(affine32(V, n), 32)))

    def affine32(V, n):
        nn = z3.Extract(31, 0, bv(n, 64))
        return simp(bv(V.init, 32) + nn * z3.BitVecVal(V.step, 32))

    def affine_at(V, n):
        if V.step == 0:
            return V.init
        if V.fit:
            return simp(z3.Extract(31, 0, bv(k_at(V, n), 64)))
        nn = bv(n, 64)
        if V.w < 64:
            nn = z3.Extract(V.w - 1, 0, nn)
        elif V.w > 64:
            nn = z3.ZeroExt(V.w - 64, nn)
        return simp(bv(V.init, V.w) + nn * z3.BitVecVal(V.step, V.w))

    def subst_aff(e, n):
        if isinstance(e, int):
            return e
        pairs = [(V.K, bv(k_at(V, n), 64)) if V.K is not None else (V.sym, bv(affine_at(V, n), V.w))
                 for V in vars_ if V.mode == "affine"]
        return simp(z3.substitute(e, *pairs))

    def value_at(V, n):
        if V.mode == "affine":
            return affine_at(V, n)
        g = subst_aff(V.g, sub64(n, 1))
        if V.w == 1:
            return simp(z3.If(bv(n, 64) == 0, b_(V.init), b_(g)))
        return simp(z3.If(bv(n, 64) == 0, bv(V.init, V.w), bv(g, V.w)))

    # phase 3: stores -> ranges
    store_desc = {}
    if stores:
        poison = {}
        s1 = st.fork()
        symvals(s1)
        for oid in stores:
            X.fresh_n += 1
            pb = Base("bytes", "poison!%d" % X.fresh_n)
            poison[oid] = pb
            s1.mem[oid] = pb
        try:
            outs = run_iter(X, s1.fork(), h, body)
        finally:
            del X.obls[nob:]
        pnames = {p.arr.decl().name() for p in poison.values()}

        def clean(e):
            if isinstance(e, (int, Ptr)):
                if isinstance(e, Ptr) and not isinstance(e.off, int):
                    return not (consts_of(e.off, set()) & pnames)
                return True
            return not (consts_of(e, set()) & pnames)
        pbacks = [o for o in outs if o.result[0] == "back"]
        for o in outs:
            for c in o.pc[len(s1.pc):]:
                if not clean(c):
                    raise NoSummary("loop condition reads memory the loop writes")
        for V in vars_:
            for b in pbacks:
                v = getv(b, V)
                if not isinstance(v, int) and not clean(v):
                    raise NoSummary("loop variable reads memory the loop writes")
        for oid in stores:
            descs = []
            for b in pbacks:
                c = b.mem[oid]
                if isinstance(c, SymStore) and c.parent is poison[oid]:
                    if not clean(c.off) or not clean(c.val):
                        raise NoSummary("store reads memory the loop writes")
                    if isinstance(c.val, (Ptr, FnPtr, Opaque)):
                        raise NoSummary("pointer store in loop")
                    descs.append(("val", c.off, c.n, c.val))
                elif isinstance(c, Range) and c.parent is poison[oid] and isinstance(c.n, int) and c.src is not None:
                    if c.src is poison[oid] or not clean(c.off) or not clean(c.soff):
                        raise NoSummary("copy reads memory the loop writes")
                    descs.append(("copy", c.off, c.n, (c.src, c.soff)))
                else:
                    raise NoSummary("not one store per iteration")
            d0 = descs[0]
            for d in descs[1:]:
                if d[0] != d0[0] or d[2] != d0[2] or not _same(d[1], d0[1]):
                    raise NoSummary("different stores on different paths")
                if d[0] == "val" and not _same(d[3], d0[3]):
                    raise NoSummary("different stored values")
                if d[0] == "copy" and not (d[3][0] is d0[3][0] and _same(d[3][1], d0[3][1])):
                    raise NoSummary("different copies")
            if len(descs) != len(backs):
                raise NoSummary("path mismatch")
            o0 = subst_aff(d0[1], 0)
            o1 = subst_aff(d0[1], 1)
            dd = delta(o1, o0)
            if dd is None or abs(dd) != d0[2]:
                raise NoSummary("store stride")
            if consts_of(bv(d0[1], 64), set()) & (syms - aff) or (d0[0] == "val" and not isinstance(d0[3], int) and consts_of(d0[3], set()) & (syms - aff)):
                raise NoSummary("store depends on derived variable")
            store_desc[oid] = (d0, o0, dd)

    def content_at(oid, n):
        (kind, off, k, val), o0, dd = store_desc[oid]
        parent = st.mem[oid]
        lo = o0 if dd > 0 else add64(o0, X.binop("mul", 64, sub64(n, 1), dd & M64))
        tot = X.binop("mul", 64, n, k)

        def fn(rel):
            if dd > 0:
                jj = rel if k == 1 else X.binop("udiv", 64, rel, k)
            else:
                q = rel if k == 1 else X.binop("udiv", 64, rel, k)
                jj = sub64(sub64(n, 1), q)
            bi = 0 if k == 1 else X.binop("urem", 64, rel, k)
            if kind == "val":
                v = subst_aff(val, jj)
                bs = to_bytes(v, k)
                if isinstance(bi, int):
                    return bs[bi]
                r = bs[0]
                for t in range(1, k):
                    r = z3.If(bi == t, bv(bs[t], 8), bv(r, 8))
                return r
            src, soff = val
            return src.byte(add64(subst_aff(soff, jj), bi), X)
        return Range(parent, lo, tot, None, 0, fn)

    def at(n, facts):
        s = st.fork()
        for V in vars_:
            setv(s, V, value_at(V, n))
        for oid in store_desc:
            s.mem[oid] = content_at(oid, n)
        for V in vars_:
            if V.fit and V.mode == "affine":
                s.assume(V.fitc(bv(k_at(V, n), 64)))
        s.facts.extend(facts)
        return s

    # phase 4: the continuation condition B(j)
    from sym import Fact
    s2 = at(N, [])
    nf0 = X.fresh_n
    names0 = None
    npc = len(s2.pc)
    nfx = len(s2.facts)
    try:
        outs = run_iter(X, s2.fork(), h, body)
    finally:
        del X.obls[nob:]
    disj = []
    for o in outs:
        if o.result[0] == "back":
            cs = o.pc[npc:]
            if X.fresh_n != nf0:
                cs = [c for c in cs if not _has_new_fresh(c, nf0)]
            disj.append(z3.And(*cs) if cs else z3.BoolVal(True))
    B = z3.simplify(z3.Or(*disj)) if disj else z3.BoolVal(False)
    fact = Fact(lambda j, B=B, N=N: z3.Implies(z3.ULT(j, N), z3.substitute(B, (N, j))), "loop " + fname[-30:],
                hints=[sub64(N, 1), 0])
    # phase 5: arbitrary iteration N, with everything before it
    s3 = at(N, [fact])
    s3.assume(z3.ULT(N, 1 << 32))
    s3.assume(z3.Implies(z3.UGT(N, 0), z3.substitute(B, (N, simp(N - 1)))))
    s3.assume(z3.Implies(z3.UGT(N, 0), z3.substitute(B, (N, z3.BitVecVal(0, 64)))))
    for j in eq_roots(B, N):     # the iteration at which an equality in the loop condition would hold
        fact.hints.append(j)
        s3.assume(z3.Implies(z3.ULT(bv(j, 64), N), z3.substitute(B, (N, bv(j, 64)))))
    outs = run_iter(X, s3, h, body)
    res = []
    for o in outs:
        if o.result[0] in ("exit", "throw"):
            res.append(o)
    X.nsummaries = getattr(X, "nsummaries", 0) + 1
    return res


def eq_roots(B, N):
    """solutions for N of the equalities between 64-bit terms in B that are affine in N with step +-1"""
    out, seen, todo = [], set(), [B]
    nn = N.decl().name()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_eq(e) and z3.is_bv(e.arg(0)) and e.arg(0).size() == 64 and nn in consts_of(e, set()):
            df = e.arg(0) - e.arg(1)
            t0 = simp(z3.substitute(df, (N, z3.BitVecVal(0, 64))))
            t1 = simp(z3.substitute(df, (N, z3.BitVecVal(1, 64))))
            d = delta(t1, t0)
            if d is not None and abs(d) == 1 and nn not in consts_of(bv(t0, 64), set()):
                tN = simp(df - bv(t0, 64) - N * z3.BitVecVal(d, 64))
                if tN == 0 if isinstance(tN, int) else False:
                    r = simp(-bv(t0, 64)) if d == 1 else t0
                    if len(out) < 4:
                        out.append(r)
        todo.extend(e.children())
    return out


def _has_new_fresh(c, nf0):
    for n in consts_of(c, set()):
        if "!" in n:
            t = n.rsplit("!", 1)[1]
            if t.isdigit() and int(t) > nf0:
                return True
    return False


def _cellval(c, o):
    if isinstance(c, Cells) and o in c.d:
        return c.d[o][1]
    return None
