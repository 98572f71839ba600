"""Free list of buffers: MBlsq queue, FreeList accounting."""
import z3
from contract import *


def lsq_off(V):
    L = V.L
    return {k: L.off("MBlsq", k) for k in ("head", "tail", "count")}, L.off("_LSQ_Node", "data"), L.off("_LSQ_Node", "next")


def lsq_nodes(V, st, n, name="q"):
    """a list of n explicit nodes; the rest (if any) is an opaque continuation"""


@proof("C09", "mabain::MBlsq::AddIntToTail", "append to queue: FIFO link structure, count+1")
def lsq_add_tail(v):
    O, dof, nof = lsq_off(v)
    for case in ("empty", "one", "many"):
        st = v.state()
        q = v.obj(st, "lsq", v.L.size("MBlsq"))
        val = v.bv("val")
        cnt = v.bv("cnt")
        if case == "empty":
            h = t = NULL
            st.assume(cnt == 0)
        else:
            h = v.obj(st, "headnode", v.L.size("_LSQ_Node"))
            t = h if case == "one" else v.obj(st, "tailnode", v.L.size("_LSQ_Node"))
            v.set(st, t, nof, 8, NULL)
            st.assume(cnt == 1 if case == "one" else z3.UGT(cnt, 1))
            st.assume(z3.ULT(cnt, 1 << 62))
        v.set(st, q, O["head"], 8, h)
        v.set(st, q, O["tail"], 8, t)
        v.set(st, q, O["count"], 8, cnt)
        tdata = v.get(st, t, dof, 8) if case != "empty" else None
        outs = v.run(st, "mabain::MBlsq::AddIntToTail", [q, val])
        for o in outs:
            nt = v.get(o, q, O["tail"], 8, True)
            nh = v.get(o, q, O["head"], 8, True)
            v.check(o, "count incremented", bv(v.get(o, q, O["count"], 8), 64) == cnt + 1)
            v.check(o, "new tail holds value", bv(v.get(o, nt, dof, 8), 64) == val)
            v.check(o, "new tail terminates list", z3.BoolVal(v.get(o, nt, nof, 8, True).obj == 0))
            if case == "empty":
                v.check(o, "head is new node", z3.BoolVal(nh.obj == nt.obj))
            else:
                v.check(o, "head unchanged", z3.BoolVal(nh.obj == h.obj))
                v.check(o, "old tail links to new", z3.BoolVal(v.get(o, t, nof, 8, True).obj == nt.obj))
                v.check(o, "old tail data unchanged", bv(v.get(o, t, dof, 8), 64) == bv(tdata, 64))


def mkqueue(v, st, case):
    """queue with no node, one node, or two explicit nodes followed by an arbitrary rest"""
    O, dof, nof = lsq_off(v)
    q = v.obj(st, "lsq", v.L.size("MBlsq"))
    cnt = v.bv("cnt")
    nodes = []
    if case == "empty":
        h = t = NULL
        st.assume(cnt == 0)
    elif case == "one":
        h = t = v.obj(st, "headnode", v.L.size("_LSQ_Node"))
        v.set(st, h, nof, 8, NULL)
        nodes = [h]
        st.assume(cnt == 1)
    else:
        h = v.obj(st, "headnode", v.L.size("_LSQ_Node"))
        n2 = v.obj(st, "node2", v.L.size("_LSQ_Node"))
        t = n2 if case == "two" else v.obj(st, "tailnode", v.L.size("_LSQ_Node"))
        v.set(st, h, nof, 8, n2)
        v.set(st, t, nof, 8, NULL)
        nodes = [h, n2]
        st.assume(cnt == 2 if case == "two" else z3.UGT(cnt, 2))
        st.assume(z3.ULT(cnt, 1 << 62))
    v.set(st, q, O["head"], 8, h)
    v.set(st, q, O["tail"], 8, t)
    v.set(st, q, O["count"], 8, cnt)
    for i, n in enumerate(nodes):
        v.set(st, n, dof, 8, v.bv("value%d" % i))
    return q, cnt, h, t, nodes


@proof("C09", "mabain::MBlsq::RemoveIntFromHead", "take from queue: the value at the head, which leaves the list")
def lsq_remove_head(v):
    O, dof, nof = lsq_off(v)
    for case in ("empty", "one", "two", "many"):
        st = v.state()
        q, cnt, h, t, nodes = mkqueue(v, st, case)
        for o in v.run(st, "mabain::MBlsq::RemoveIntFromHead", [q]):
            r = bv(o.result[1], 64)
            nh, nt = v.get(o, q, O["head"], 8, True), v.get(o, q, O["tail"], 8, True)
            nc = bv(v.get(o, q, O["count"], 8), 64)
            if case == "empty":
                v.check(o, "an empty queue stays empty", z3.And(nc == 0, z3.BoolVal(nh.obj == 0 and nt.obj == 0)))
                continue
            v.check(o, "gives the value at the head", r == v.bv("value0"))
            v.check(o, "count decremented", nc == cnt - 1)
            v.check(o, "head node released", z3.BoolVal(h.obj in o.freed))
            if case == "one":
                v.check(o, "queue is empty afterwards", z3.BoolVal(nh.obj == 0 and nt.obj == 0))
            else:
                v.check(o, "head moves to the second node", z3.BoolVal(nh.obj == nodes[1].obj))
                v.check(o, "tail unchanged", z3.BoolVal(nt.obj == t.obj))
                v.check(o, "second value unchanged", bv(v.get(o, nodes[1], dof, 8), 64) == v.bv("value1"))


@proof("C09", "mabain::MBlsq::Clear", "clearing a queue forgets every node", bounded="lists of up to two nodes")
def lsq_clear(v):
    O, dof, nof = lsq_off(v)
    for case in ("empty", "one", "two"):
        st = v.state()
        q, cnt, h, t, nodes = mkqueue(v, st, case)
        v.set(st, q, O_free(v), 8, NULL)
        for o in v.run(st, "mabain::MBlsq::Clear", [q]):
            nh, nt = v.get(o, q, O["head"], 8, True), v.get(o, q, O["tail"], 8, True)
            v.check(o, "empty afterwards", z3.And(bv(v.get(o, q, O["count"], 8), 64) == 0, z3.BoolVal(nh.obj == 0 and nt.obj == 0)))
            v.check(o, "every node released", z3.BoolVal(all(n.obj in o.freed for n in nodes)))


def O_free(v):
    return v.L.off("MBlsq", "FreeFunc")


@proof("C09", "mabain::MBlsq::Count", "count reports the number of nodes")
def lsq_count(v):
    st = v.state()
    q, cnt, h, t, nodes = mkqueue(v, st, "many")
    for o in v.run(st, "mabain::MBlsq::Count", [q]):
        v.check(o, "count", bv(o.result[1], 64) == cnt)
