"""Every operation ends."""
from cells import Cells
from step import Step
from world import *
from round import *
from loops import submus
from narrow import Obj, call, collide_fn
from engine import cfg_of
import checks.p22 as p22


def run(M, R):
    R.expl = ("for every loop met in symbolic runs of the public operations, and for those of all other functions of the crate on arbitrary arguments, a measure is exhibited that every completed round lowers and that is bounded below "
              "while rounds are completed: what is left of a collection or range that the loop does not change, or for work lists, the entities not treated yet; the call graph is shown to have no cycle through the crate")
    cycles(M, R)
    T = Ends(M, R)
    for f in sorted(M.public_api(), key=lambda f: f["name"]):
        if f["name"] == "step" or f["argc"] < 1 or M.d.types[f["locals"][1][0]]["k"] != "ref":
            continue
        e = M.engine()
        st = St({}, 1)
        args = e.default_args(f, st)
        args[0] = M.selfref()
        M.run(e, f, args, st)
        T.loops(e, f["name"])
    S = Step(M)
    T.loops(S.e, "step")
    # what is left: the narrow phase, the methods of public types and what nothing calls
    rest = [f for f in M.d.fns.values() if f["local"] and f["id"] not in T.seen and f["kind"] != "closure" and cfg_of(f)["loops"]]
    for f in sorted(rest, key=lambda f: -len(reached(M, f))):
        if f["id"] in T.seen:
            continue
        e = M.engine()
        e.peelmax = 8
        M.run(e, f, e.default_args(f, st), St({}, 1))
        T.loops(e, f["path"].split("::", 1)[-1])
    miss = sorted(f["path"] for f in M.d.fns.values() if f["local"] and f["id"] not in T.seen and cfg_of(f)["loops"])
    R.check(not miss, "covered", "loops of functions that were never analysed: " + ", ".join(miss)[:300], "all functions of the crate with loops were analysed")
    R.floor("loops", T.n, 20)


def reached(M, f):
    C = M.callgraph
    out, st = set(), [f["id"]]
    while st:
        for y in C.get(st.pop(), ()):
            if y not in out:
                out.add(y)
                st.append(y)
    return out


# ---------------------------------------------------------------- recursion
def cycles(M, R):
    C = Cells(M)
    C.users = ()
    g = {}
    for f in M.d.fns.values():
        s = set()
        for b in f["blocks"]:
            if not b["cleanup"] and b["t"]["k"] == "call":
                s |= set(C.callees(f, b["t"]) or ())
        g[f["id"]] = s
    M.callgraph = g
    bad = set()
    for f in M.d.fns.values():
        if f["local"] and f["id"] in reached(M, f):
            bad.add(f["path"])
    R.count("functions_in_call_graph", len(g))
    # the narrow phase may pass itself the two colliders the other way round
    C = collide_fn(M)
    if C["path"] in bad and C["id"] in g[C["id"]]:
        g = {k: v - {C["id"]} for k, v in g.items()}
        M.callgraph = g
        bad = {f["path"] for f in M.d.fns.values() if f["local"] and f["id"] in reached(M, f)}
        swaps(M, R, C)
    R.check(not bad, "recursion", "functions that call themselves, directly or through others: " + ", ".join(sorted(bad))[:300], "no function of the crate can call itself, directly or through others")


def swaps(M, R, C):
    """a function that calls itself, but for no two types of collider calls itself again from there"""
    otid = M.d.types[C["locals"][2][0]]["to"]
    for n1, i1 in sorted(M.ctraits.items()):
        for n2, i2 in sorted(M.ctraits.items()):
            a, b = Obj(M, i1["tid"], "A"), Obj(M, i2["tid"], "B")
            os_ = [Obj(M, otid, n) for n in ("s1", "e1", "s2", "e2")]
            e, _, _ = call(M, R, C, [a.ref, os_[0].ref, os_[1].ref, b.ref, os_[2].ref, os_[3].ref], [a, b] + os_)
            k = ":".join(n.split("::")[-1] for n in (n1, n2))
            R.check(not [ev for ev in e.log if ev["kind"] == "recursion"], "swap:" + k, "the narrow phase calls itself again and again for " + k, "%s: the narrow phase calls itself at most once" % k)


# ---------------------------------------------------------------- loops
class Ends:
    def __init__(self, M, R):
        self.M, self.R = M, R
        self.seen, self.n = set(), 0
        self.told = set()

    def loops(self, e, tag):
        M, R = self.M, self.R
        self.seen |= e.stats["fns"]
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        for ev in e.log:
            if ev["kind"] == "recursion":
                R.check(False, "recursion:" + ev["name"], ev["name"] + " calls itself", None)
        known_calls(R, e, tag + ":known", tag)
        work = None
        for k in e.loopinfo:
            if e.loopinfo[k].get("backst") is None:
                continue
            lp = Loop(e, k)
            self.n += 1
            why = self.counts(e, lp) or self.walks(e, lp)
            if why is None:
                if work is None:
                    work = p22.wakers(M, e)
                for w, X, Q in work:
                    if w.key == lp.key:
                        why = self.worklist(e, w, X, Q)
            R.check(why is not None, "%s:%s" % (tag, lp.info["fn"].split("::", 1)[-1]), "nothing shows that the loop in %s ends (%s)" % (lp.where(), tag), "%s: the loop in %s ends: %s" % (tag, lp.where(), why))

    def steady(self, lp, x):
        return not occurs(x, lambda y: y in lp.mus or y.op == "mu" and lp.key in self.inside(lp, y))

    @staticmethod
    def inside(lp, m):
        k = lp.e.mu.get(m, {}).get("loop")
        return Loop(lp.e, k).stack if k in lp.e.loopinfo and "stack" in lp.e.loopinfo[k] else ()

    def counts(self, e, lp):
        """an integer expression above zero in every completed round, lowered by each of them"""
        for a in sorted(t.bsupport(lp.back), key=lambda a: a.id):
            if a.op != "lt" or a.attr != "i" or not t.bimp(lp.back, t.bvar(a)):
                continue
            if a.args[0] is not cint(0):
                continue
            x = a.args[1]
            ms = submus(e, x)
            if not any(m in lp.mus for m in ms) or any(lp.key in self.inside(lp, m) for m in ms):
                continue
            ms = [m for m in ms if m in lp.mus]
            if any(lp.mus[m].get("next") is None for m in ms):
                continue
            y = Subst(e, {m: lp.nxt(m) for m in ms}, lp.back)(x)
            if all(self.less(t.iadd(l, x, -1)) for c, l in t.leaves(y) if t.band(c, lp.back)):
                return "what is left of a range, less in every round"
        return None

    @staticmethod
    def less(d):
        """a negative integer, or minus something that cannot be"""
        c, cs = t.lin(d) if d.op != "i" else (d.attr, {})
        return c < 0 and not cs

    def walks(self, e, lp):
        for a in sorted(t.bsupport(lp.back), key=lambda a: a.id):
            if a.op == "more" and a.attr is None and t.bimp(lp.back, t.bvar(a)):
                m = a.args[1]
                if m in lp.mus and self.steady(lp, a.args[0]) and all(t.iadd(l, m, -1).op == "i" and t.iadd(l, m, -1).attr > 0 for c, l in t.leaves(lp.nxt(m)) if t.band(c, lp.back)):
                    return "what is left of a collection, less in every round"
        return None

    def worklist(self, e, lp, X, Q):
        """each entity is taken up once: what is queued was not taken up before, and what is taken is remembered"""
        bad = []

        class Quiet:
            def check(self, ok, key, bad_, good):
                if not ok and key in ("done", "walk", "walk:start", "queue", "queue:kept", "queue:rest", "queue:odd", "again", "some", "writes"):
                    bad.append(bad_)
        p22.closure(self.M, Quiet(), e, lp, X, Q, "")
        return None if bad else "the entities not woken yet, one less for each that adds to the list"
