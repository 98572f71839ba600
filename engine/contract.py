"""Proof contexts, contracts, parallel discharge, vacuity checks."""
import os, sys, time, traceback, subprocess, tempfile, json
import multiprocessing as mp
import z3
import build, llir
from mem import *
from sym import Executor, State, Fact, Obligation, discharge, instantiate

PROOFS = []          # registered proofs


class Proof:
    def __init__(self, fn, props, target, title, limit, bounded):
        self.fn, self.props, self.target, self.title, self.limit, self.bounded = fn, props, target, title, limit, bounded
        self.name = fn.__name__


def proof(props, target, title="", limit=100, bounded=None):
    """register a proof; target: demangled name of the /repo function(s) under contract"""
    def d(f):
        PROOFS.append(Proof(f, props.split(), target, title or (f.__doc__ or "").strip().split("\n")[0], limit, bounded))
        return f
    return d


class Contract:
    """A function contract.  The same `post` is proved against the body (by a
    proof calling V.enforce) and assumed at call sites."""
    target = None          # demangled name
    throws = ()

    def mangled(self, V):
        return V.fn(self.target)

    def apply(self, X, st, args):
        raise NotImplementedError


class V:
    """verification context of one proof"""
    def __init__(self, m, L, proof=None):
        self.m, self.L = m, L
        self.X = Executor(m, L)
        self.X.V = self
        self.proof = proof
        self.covers = []
        self.ranfns = []
        self.checks = 0

    # -- names
    def fn(self, pat, nargs=None):
        r = build.find(self.m, pat)
        r = [n for n in r if n in self.m.names]
        if nargs is not None:
            r = [n for n in r if len(self.m.func(n).args) == nargs]
        if not r:
            raise MissingTarget(pat)
        if len(r) > 1:
            bodies = [n for n in r if not self.m.func(n).decl]
            r = bodies or r
        return r[0]

    def has(self, pat):
        try:
            return not self.m.func(self.fn(pat)).decl
        except MissingTarget:
            return False

    def use(self, c):
        """use a contract at call sites; if the function no longer exists, callers are
        verified against whatever they call instead (inlined)"""
        try:
            for n in c.names(self):
                self.X.contracts[n] = c
        except MissingTarget:
            pass

    # -- state
    def state(self):
        return State()

    def obj(self, st, name, size=None, kind="struct", lazy=None):
        p = self.X.new_obj(st, name, size, kind, lazy)
        self.X.objs[p.obj].external = True
        return p

    def bv(self, name, w=64):
        return z3.BitVec(name, w)

    def set(self, st, p, off, n, val):
        st.mem[p.obj] = mstore_(st.mem[p.obj], add64(p.off, off), n, val)

    def get(self, st, p, off, n, isptr=False):
        self.X.cur = st
        return st.mem[p.obj].read(add64(p.off, off), n, self.X, isptr)

    def byte(self, st, p, off):
        self.X.cur = st
        return bv(st.mem[p.obj].byte(add64(p.off, off), self.X), 8)

    # -- run
    def run(self, st, target, args, nargs=None, expect=None):
        name = target if target in self.m.names else self.fn(target, nargs)
        f = self.m.func(name)
        if f is None or f.decl:
            raise MissingTarget(target)
        if name not in self.ranfns:
            self.ranfns.append(name)
        if not self.X.feasible(st):
            self.covers.append(("precondition of " + target, False))
        else:
            self.covers.append(("precondition of " + target, True))
        outs = self.X.run_function(st, name, args)
        res = []
        for o in outs:
            if any(z3.is_false(p) for p in o.pc):
                continue
            res.append(o)
        return res

    def check(self, st, name, goal, hints=()):
        self.X.oblige(st, name, goal, hints)

    def cover(self, name, states):
        """at least one of the states must be feasible (vacuity guard)"""
        ok = False
        for s in states:
            insts = []
            if s.facts:
                insts = instantiate(Obligation("c", s.pc, s.facts, z3.BoolVal(False), ""))
            so = z3.Solver()
            so.set("timeout", 5000)
            so.add(*s.pc)
            so.add(*insts)
            if so.check() != z3.unsat:
                ok = True
                break
        self.covers.append((name, ok))


def mstore_(c, off, n, val):
    from mem import store
    return store(c, off, n, val)


class MissingTarget(Exception):
    pass


def external_solve(smt2, timeout=20):
    """cross-solver fallback for queries z3's API could not decide"""
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write("(set-logic ALL)\n" + smt2 if "(set-logic" not in smt2 else smt2)
    if "(check-sat)" not in smt2:
        f.write("\n(check-sat)\n")
    f.close()
    procs = []
    try:
        for cmd in (["cvc5", "--tlimit=%d" % (timeout * 1000), f.name], ["z3-new", "-T:%d" % timeout, f.name],
                    ["z3", "-T:%d" % timeout, f.name]):
            try:
                procs.append((cmd[0], subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        end = time.time() + timeout + 2
        live = list(procs)
        while live and time.time() < end:
            for p in list(live):
                if p[1].poll() is not None:
                    out = p[1].stdout.read().strip().split("\n")[0]
                    live.remove(p)
                    if out in ("sat", "unsat"):
                        return out, p[0]
            time.sleep(0.05)
        return "unknown", None
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        os.unlink(f.name)


def run_proof(m, L, pr, qtimeout=10000):
    t0 = time.time()
    v = V(m, L, pr)
    v.X.deadline = t0 + pr.limit
    res = {"proof": pr.name, "title": pr.title, "props": pr.props, "target": pr.target, "status": "ok",
           "obligations": 0, "discharged": 0, "failed": [], "unknown": [], "error": None, "backends": {}, "names": {},
           "bounded": pr.bounded}
    try:
        pr.fn(v)
    except MissingTarget as e:
        res["status"] = "undecided"
        res["error"] = "extraction: function not found: %s" % e
    except build.LayoutMissing as e:
        res["status"] = "undecided"
        res["error"] = "extraction: %s not found" % e
    except Unsupported as e:
        res["status"] = "undecided"
        res["error"] = "unsupported: %s" % e
    except z3.Z3Exception as e:
        res["status"] = "undecided"
        res["error"] = "solver: %s %s" % (e, traceback.format_exc()[-600:])
    except RecursionError as e:
        res["status"] = "undecided"
        res["error"] = "recursion limit"
    except Exception as e:
        res["status"] = "undecided"
        res["error"] = "internal: %s" % traceback.format_exc()[-1500:]
    if res["error"]:
        # obligations of a partially explored function are still checked below
        pass
    seen = {}
    for ob in v.X.obls:
        res["obligations"] += 1
        label = ob.name
        fnm = m.demangled.get(ob.fn, ob.fn).split("(")[0]
        key = (tuple(p.get_id() for p in ob.pc), ob.goal.get_id(), tuple(id(f) for f in ob.facts))
        if key in seen:
            r, model = seen[key]
        else:
            if time.time() - t0 > pr.limit * 1.5:
                r, model = "unknown", "time limit"
            else:
                r, model = discharge(ob, qtimeout, v.X)
            if r == "unknown" and model != "time limit" and time.time() - t0 < pr.limit * 1.5:
                r2, be = external_solve(model)
                if r2 == "unsat":
                    r = "proved"
                    res["backends"][be] = res["backends"].get(be, 0) + 1
                elif r2 == "sat":
                    r, model = "failed", None
            elif r == "proved":
                be = "z3" if not z3.is_true(ob.goal) else "simplifier"
                res["backends"][be] = res["backends"].get(be, 0) + 1
            seen[key] = (r, model)
        d = res["names"].setdefault(label, [0, 0])
        d[0] += 1
        if r == "proved":
            res["discharged"] += 1
            d[1] += 1
        elif r == "failed":
            mt = ""
            try:
                mt = str(model)[:3000] if model is not None else ""
            except Exception:
                pass
            res["failed"].append({"obligation": label, "function": fnm, "model": mt,
                                  "goal": str(ob.goal)[:800], "path": [str(p)[:200] for p in ob.pc[-12:]]})
        else:
            res["unknown"].append({"obligation": label, "function": fnm})
    res["covers"] = v.covers
    vac = [n for n, ok in v.covers if not ok]
    if vac and res["status"] == "ok":
        res["status"] = "vacuous"
        res["error"] = "vacuity: " + ", ".join(vac)
    if res["obligations"] == 0 and res["status"] == "ok":
        res["status"] = "vacuous"
        res["error"] = "no obligations generated"
    res["wall"] = time.time() - t0
    res["solver_s"] = v.X.solver_time
    res["queries"] = v.X.nqueries
    res["paths"] = v.X.npaths
    res["functions"] = [m.demangled.get(n, n).split("(")[0] for n in v.ranfns]
    res["inlined"] = sorted({m.demangled.get(n, n).split("(")[0] for n in v.X.inlined if n.startswith("_ZN") and "mabain" in n})
    res["contracts_used"] = sorted({m.demangled.get(n, n).split("(")[0] for n in v.X.used_contracts})
    res["trusted"] = sorted(v.X.trusted)
    res["loops_summarised"] = v.X.nsummaries
    res["notes"] = v.X.notes[:20]
    return res


_G = {}


def _worker(idx):
    m, L, prs, q = _G["args"]
    try:
        return run_proof(m, L, prs[idx], q)
    except BaseException:
        return {"proof": prs[idx].name, "status": "undecided", "error": traceback.format_exc()[-1500:], "obligations": 0,
                "discharged": 0, "failed": [], "unknown": [], "props": prs[idx].props, "target": prs[idx].target,
                "title": prs[idx].title, "wall": 0, "solver_s": 0, "queries": 0, "paths": 0, "functions": [],
                "inlined": [], "contracts_used": [], "trusted": [], "loops_summarised": 0, "backends": {}, "names": {},
                "covers": [], "notes": [], "bounded": None}


def run_proofs(m, L, prs, jobs=8, qtimeout=10000):
    _G["args"] = (m, L, prs, qtimeout)
    if jobs <= 1 or len(prs) == 1:
        return [_worker(i) for i in range(len(prs))]
    ctx = mp.get_context("fork")
    order = sorted(range(len(prs)), key=lambda i: -prs[i].limit)
    with ctx.Pool(min(jobs, len(prs)), maxtasksperchild=1) as pool:
        rs = pool.map(_worker, order, chunksize=1)
    return [r for _, r in sorted(zip(order, rs), key=lambda t: t[0])]
