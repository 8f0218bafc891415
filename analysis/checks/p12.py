"""Removing removes: exactly the object named and, for an entity, its colliders; adding gives a new live handle."""
from world import *


def run(M, R):
    R.expl = ("for each adding and removing operation: liveness of a generic handle after the operation and the returned value, as gated values over all states; compared with the documented effect under the link invariant, and the two conditions must be equivalent")
    for name, which in (("remove_entity", "ent"), ("remove_collider", "col"), ("remove_unary_force_generator", "gen")):
        W, e, s, ret, args = start(M, R, name)
        h = args[1]
        L0, L1 = (e.project(M.arena(e, x, which), prims.AL) for x in (W.s0, W.s1))
        l0 = prims.live(e, L0, h)
        l1 = W.canon.b(W.live(L1, h, W.pc)) if which != "gen" else prims.live(e, restrict(L1, W.pc), h)
        d = W.infeasible(t.band(W.pc, l1))
        R.check(d is None, name + ":gone", "after %s the handle can still be live%s" % (name, case(d)), "%s kills the handle" % name)
        if which == "ent":
            c = t.sym("any_collider")
            mine = t.band(W.clive0(c), t.band(W.is1(W.link0(c)), e.keyeq(W.pay(W.link0(c)), h)))
            d = W.infeasible(t.band(t.band(W.pc, l0), t.band(mine, W.clive1(c))))
            R.check(d is None, name + ":colliders", "a collider linked to the removed entity can survive%s" % case(d), "the colliders of a removed entity go with it")
            succ(R, W, s, ret, "bool", l0, name)
        if which == "gen":
            succ(R, W, s, ret, "option", l0, name)
            f = e.projpath(restrict(ret, t.band(s.pc, l0)), (("v", 1), ("f", 0, 1, OPT + "#1")), St({}, l0))
            m0 = e.project(M.arena(e, W.s0, "gen"), prims.AM)
            R.check(f is e.mksel(m0, h, ()), name + ":value", "%s does not return the generator that was stored" % name, "%s returns the stored generator" % name)
    for name, which in (("add_entity", "ent"), ("add_collider", "col"), ("add_unary_force_generator", "gen")):
        W, e, s, ret, args = start(M, R, name)
        fail = t.band(s.pc, fail_cond(e, ret, "result"))
        ok = t.band(s.pc, t.bnot(fail))
        L0, L1 = (e.project(M.arena(e, x, which), prims.AL) for x in (W.s0, W.s1))
        n = 0
        for c, l in t.leaves(restrict(ret, ok), ok):
            v = e.projpath(l, (("v", 0), ("f", 0, 1, RES + "#0")), St({}, c))
            for c2, k in t.leaves(v, c):
                n += 1
                R.check(t.band(c2, t.bnot(prims.live(e, restrict(L1, c2), k))) == 0, name + ":live", "the handle %s returns is not live" % name, "%s returns a live handle" % name)
                R.check(t.band(c2, prims.live(e, L0, k)) == 0, name + ":new", "%s can return a handle that was already live" % name, "%s returns a handle that was not live" % name)
        R.check(n > 0 and ok != 0, name + ":ok", "%s never succeeds" % name)
        a = t.sym("any_other")
        l1 = prims.live(e, restrict(L1, fail), a) if fail else prims.live(e, L0, a)
        R.check(t.band(fail, t.band(l1, t.bnot(prims.live(e, L0, a)))) == 0, name + ":fail", "a failing %s adds something" % name, "a failing %s adds nothing" % name)
    R.floor("operations", 6, 6)


def succ(R, W, s, ret, kind, l0, name):
    good = t.band(W.pc, t.bnot(W.canon.b(fail_cond(None, ret, kind))))
    d = W.infeasible(t.band(W.pc, t.bor(t.band(good, t.bnot(l0)), t.band(l0, t.bnot(good)))))
    R.check(d is None, name + ":result", "%s does not report success exactly when the handle was live%s" % (name, case(d)), "%s succeeds exactly for live handles" % name)


def start(M, R, name):
    f = M.api(name)
    e = M.engine()
    st = St({}, 1)
    args = e.default_args(f, st)
    args[0] = M.selfref()
    s, ret = M.run(e, f, args, st)
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    for u in e.unknown:
        R.check(False, name + ":unmodelled:" + u, "%s calls %s, whose effect is not known" % (name, u))
    return World(M, e, s), e, s, ret, args


def case(d):
    return "" if d is None else ", e.g. when " + t.showb(d, 3, 1)[:300]
