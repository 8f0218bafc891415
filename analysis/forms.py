"""Formula checks: the value a function computes, compared with a reference expression in
algebraic normal form (equal over the reals for every input, in every case of every condition)."""
from model import *
import alg, order
from alg import Alg, case_eq


def V(name):
    x = t.sym(name)
    alg.setkind(x, "v")
    return x


def S(name):
    x = t.sym(name)
    alg.setkind(x, "s")
    return x


def MM(name):
    x = t.sym(name)
    alg.setkind(x, "m")
    return x


def Q(name):
    x = t.sym(name)
    alg.setkind(x, "q")
    return x


def num(x):
    return t.cflt(str(x))


def zero3():
    return agg("vec3", [num(0.0)] * 3)


def rot(q, v):
    return mk("qrot", (q, v))


def qinv(q):
    return prims.qinv(q)


def qfrom(v):
    return mk("qfrom", (v,))


def qaxis(q):
    x = mk("qaxis", (q,))
    return x


def qmat(q):
    return mk("qmat", (q,))


def transpose(m):
    return mk("transpose", (m,))


def tadd(a, *bs):
    for b in bs:
        a = t.add(a, b)
    return a


class Obj:
    """a struct value with one symbol per field, reachable through a reference"""

    def __init__(self, M, tid, name, **over):
        self.M, self.tid = M, tid
        ty = M.d.types[tid]
        self.names = [f["n"] for f in ty["variants"][0]["f"]]
        self.v = M.struct_sym(tid, name)
        for k, x in over.items():
            self.v = self.set(k, x)
        self.root = (name + "_obj",)
        self.ref = mkref(self.root, ())

    def get(self, *path, v=None):
        """field by (nested) name"""
        x = self.v if v is None else v
        tid = self.tid
        for n in path:
            i = self.M.d.field_index(tid, n)
            x = x.args[i] if x.op == "agg" else Engine.project(Engine.__new__(Engine), x, self.M.d.fproj(tid, n))
            tid = self.M.d.fields(tid)[i]["t"]
        return x

    def set(self, name, x):
        i = self.M.d.field_index(self.tid, name)
        args = list(self.v.args)
        args[i] = x
        return agg(self.v.attr, args)


def call(M, R, f, args, objs=(), opaque=(), state=None, peel=8, onret=None):
    """run a function on the given arguments; objs are put in memory. -> engine, state, value"""
    e = M.engine(opaque=opaque)
    e.peelmax = peel
    e.onret = onret
    st = St({}, 1) if state is None else state
    for o in objs:
        st.mem[o.root] = o.v
    f = M.d.fn(f) if isinstance(f, str) else f
    s, r = e.call_fn(f["id"], args, st, ("root", f["path"]), (f["path"], "entry"))
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    return e, s, r


def show_nf(x):
    return alg.sh(x)[:300]


def conds(x):
    """atoms of all conditions inside a value"""
    out, seen = set(), set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op in ("ite", "cond"):
            out |= t.bsupport(y.attr)
        if y.op in ("fmin", "fmax"):
            out |= t.bsupport(t.tobdd(t.flt(*y.args))) | t.bsupport(t.tobdd(t.flt(*y.args[::-1])))
        todo.extend(y.args)
    return out


def differs(e, got, want, pc=1, subst=None, limit=2000, setup=None):
    """None if got == want in every case allowed by pc, else how they differ"""
    try:
        d = case_eq(e, got, want, pc, subst, limit, setup)
        if d is not None:
            # leave out cases that no values can produce
            th = order.theory(Alg(e), [pc], conds(got) | conds(want))
            if th != 1:
                pc = t.band(pc, th)
                d = case_eq(e, got, want, pc, subst, limit, setup)
        if d is not None and alg.FINITE[0]:
            A = Alg(e)
            th = order.linear(set().union(*[t.bsupport(A.canon(t.bvar(a))) for a in conds(got) | conds(want) | set(t.bsupport(pc))]))
            if th != 1:
                pc = t.band(pc, th)
                d = case_eq(e, got, want, pc, subst, limit, setup)
            for i in range(8):
                # the case found may speak of other atoms (parts of these, after other cases were decided)
                th = 1 if d is None else order.linear(t.bsupport(d[0]))
                if d is None or t.band(d[0], th) == d[0]:
                    break
                pc = t.band(pc, th)
                d = case_eq(e, got, want, pc, subst, limit, setup)
    except RuntimeError as x:
        return "could not be decided (%s)" % x
    if d is not None:
        return "computes %s where %s is required%s" % (show_nf(d[1]), show_nf(d[2]), "" if d[0] == 1 else " when " + t.showb(d[0], 3, 1)[:200])


def same(R, e, key, got, want, what, pc=1, subst=None, limit=2000, setup=None):
    """obligation: got == want in every case allowed by pc"""
    d = differs(e, got, want, pc, subst, limit, setup)
    return R.check(d is None, key, "%s: %s" % (what, d), what)


def turned(a, b, tm):
    """rotations a, b: the turn from a to b, a part tm of it done; two equal expressions"""
    part = lambda q: qfrom(t.mul(tm, qaxis(q)))
    return [mk("qmul", (part(mk("qmul", (b, qinv(a)))), a)), mk("qmul", (a, part(mk("qmul", (qinv(a), b)))))]


def nopanic(R, e, key, what, pc=1):
    for ev in e.log:
        if ev["kind"] == "panic" and t.band(ev["cond"], pc):
            R.check(False, key + ":panic", "%s can panic: %s in %s" % (what, ev["why"], ev["site"]))


def known_calls(R, e, key, what):
    for u in e.unknown:
        R.check(False, key + ":unmodelled:" + u, "%s calls %s, whose value is not known" % (what, u))


def unchanged(R, s, objs, key, what):
    for o in objs:
        R.check(s.mem.get(o.root) is o.v, key + ":pure", "%s changes an object it should only read" % what)
