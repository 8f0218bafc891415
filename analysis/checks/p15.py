"""Motion during a step."""
from round import *


def run(M, R):
    R.expl = ("PhysicsSystem::step is analysed as a whole; its collision loop becomes a state transition with two cases (a collision was selected, none was). In each, "
              "the pose of an arbitrary entity afterwards is compared with its pose before, moved by its velocities for the time that passed; sums, products and "
              "rotations are compared in normal form")
    Z = Round(M)
    e, S, it = Z.e, Z.S, Z.iter
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    R.setc("loops_summarised", len(e.loopinfo))
    j = t.sym("j")
    k = mk("aitem", (Z.L, j))
    if Z.T is None or len(Z.lists) < 2:
        R.check(False, "bookkeeping", "the step keeps no time left and no movement still to be made for each entity that start out as dt and dt times the velocities", None)
        return
    R.check({"velocity", "angular_velocity"} <= set(Z.lists.values()), "start", "the movement planned for an entity does not start out as dt times its velocity and dt times its angular velocity", "the planned movement starts out as dt times the velocities after the force stage")
    head = Z.head
    x0, q0, o0 = (Z.fld(head, k, "orientation", n) for n in ("position", "rotation", "internal_origin_offset"))
    v0, w0 = Z.fld(head, k, "velocity"), Z.fld(head, k, "angular_velocity")
    # poses when the first round starts
    sub = Subst(e, None, 1, Z.rs1.hook)
    ini = M.system(it.entry) if hasattr(it.entry, "mem") else None
    X0 = it.init(Z.X)
    for n in ("position", "rotation", "internal_origin_offset"):
        p = (M.d.fproj(M.ient, "orientation"), M.d.fproj(M.orient, n))
        R.check(sub(e.mksel(X0, k, p)) is M.efield(e, S.sys0, k, "orientation", n), "before:" + n, "an entity's %s is changed before the simulation starts" % n, "the force stage leaves %s alone" % n)
    T = Z.T

    def advanced(case, F, sysv, Tn, pc, key):
        """the pose in sysv is that of the head, moved for T - Tn"""
        spent = t.add(T, t.neg(Tn))
        f = lambda *n: Z.fix(F, Z.fld(sysv, k, *n))
        x1, q1, o1 = f("orientation", "position"), f("orientation", "rotation"), f("orientation", "internal_origin_offset")
        asleep = t.tobdd(f("asleep"))
        alg.setkind(x1, "v")
        alg.setkind(q1, "q")
        awake = t.band(pc, t.bnot(asleep))
        same(R, e, key + "position", x1, t.add(x0, t.mul(v0, spent)), case + ": an awake entity moves by its velocity times the time that passed", pc=awake)
        same(R, e, key + "rotation", q1, mk("qmul", (qfrom(t.mul(w0, spent)), q0)), case + ": an awake entity turns by its angular velocity times the time that passed", pc=awake)
        same(R, e, key + "asleep:position", x1, x0, case + ": a sleeping entity stays where it is", pc=t.band(pc, asleep))
        same(R, e, key + "asleep:rotation", q1, q0, case + ": a sleeping entity does not turn", pc=t.band(pc, asleep))
        R.check(o1 is o0, key + "origin", case + ": an entity's origin moves inside it", case + ": the local origin stays where it is in the body")

    # a collision was selected
    back = Z.backsys()
    pc = Z.distinct
    R.check(t.band(Z.found(it.back), Z.pcF) != 0, "hit:back", "a round with a collision never completes", None)
    Tn = Z.found(it.nxt(T))
    same(R, e, "hit:time", Tn, t.mul(T, t.add(num(1.0), t.neg(Z.time))), "collision: the rest of the step after an impact at fraction s is (1-s) of what was left", pc=pc)
    advanced("collision", Z.F, back, Tn, pc, "hit:")
    for (m, path), n in sorted(Z.lists.items(), key=lambda r: r[1]):
        for who, w, pcw in Z.cases(j):
            g = Subst(e, None, pcw)
            got = g(Z.found(e.mksel(it.nxt(m), w, path)))
            vel = g(Z.found(Z.fld(back, mk("aitem", (Z.L, w)), n)))
            alg.setkind(vel, "v")
            V0 = V("v'")
            a = subst(e, got, {vel: V0})
            alg.setkind(a, "v")
            if alg.case_eq(e, a, t.mul(Tn, V0), pcw) is None:      # for any new velocity whatever
                R.check(True, "hit:plan:" + n, "", "collision: what is left of %s's movement is its new %s times the time left" % (who, n))
            else:
                same(R, e, "hit:plan:" + n, got, t.mul(Tn, vel), "collision: what is left of %s's movement is its new %s times the time left" % (who, n), pc=pcw)
    for c, s in Z.ends(Z.F):
        exhausted(R, Z, c, s, "hit:")
    # none was
    pc = t.band(Z.fix(Z.N, it.back), Z.pcN)
    if pc != 0:
        over(R, Z, advanced, 1, it.backst, "none:back:")
    for c, s in Z.ends(Z.N):
        if not exhausted(R, Z, c, s, None):
            over(R, Z, advanced, 1, s, "none:")
    # after the last round
    sysv = M.system(S.s)
    for n in ("position", "rotation", "internal_origin_offset"):
        x = Z.fld(sysv, k, "orientation", n)
        ok = True
        for s in it.info["exits"]:
            v = Z.fld(M.system(s), k, "orientation", n)
            ok &= sub(restrict(x, s.pc)) is sub(restrict(v, s.pc))
        R.check(ok, "after:" + n, "an entity's %s is changed after the last round" % n, "nothing moves after the last round (%s)" % n)


def e_next(it, m):
    return it.nxt(m)


def exhausted(R, Z, c, s, key):
    """the loop is left because the rounds are used up: nothing has happened since the last one"""
    it, M = Z.iter, Z.M
    same_state = M.amap(Z.e, M.system(s), "ent") is Z.X and all(unchangedmu(s, it, m) for m in (Z.T,))
    limit = Z.e.project(Z.S.sys0, M.d.fproj(M.sys, "iteration_max"))
    up = False
    for m, i0 in it.counters().items():
        if i0 is cint(0) and t.bimp(c, t.bnot(t.tobdd(t.ilt(m, limit)))):
            up = True
    ok = same_state and up
    if key:
        R.check(ok, key + "stop", "the step ends early although a collision was found", "with a collision found, only the iteration limit ends the step")
    return ok


def unchangedmu(s, it, m):
    root = m.attr[1]
    v = s.mem.get(root)
    return v is None or v is m or not isinstance(v, t.T) or occurs_top(v, m)


def occurs_top(v, m):
    return v is m


def over(R, Z, advanced, pc, s, key):
    """nothing left to hit: all time is used up"""
    it = Z.iter
    v = s.mem.get(Z.T.attr[1])
    if v is None or Z.T.attr[2] != ():
        raise AnalysisError("the time left at the end of a step could not be read")
    Tn = Z.none(v)
    same(R, Z.e, key + "time", Tn, num(0.0), "no collision: the rest of the step is used up", pc=pc)
    advanced("no collision", Z.N, Z.M.system(s), num(0.0), pc, key)
