"""The force stage of a step."""
from forms import *
from loops import *
from step import Step


def run(M, R):
    R.expl = ("PhysicsSystem::step is analysed as a whole; the loops that call the user's force generators are shown to walk every entity and every "
              "generator once, and the velocities they leave behind are compared, as algebraic normal forms with closed-form sums, with dt/m sum F and "
              "I^-1 dt sum (p-x) x F")
    S = Step(M)
    e = S.e
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    R.setc("force_call_sites", len(S.users))
    if len(S.users) != 1:
        raise AnalysisError("expected one place that asks generators for forces, found %d" % len(S.users))
    ev = S.users[0]
    if len(ev["loops"]) != 2:
        raise AnalysisError("the force call is nested in %d loops, expected entities x generators" % len(ev["loops"]))
    li, lg = Loop(e, ev["loops"][0]), Loop(e, ev["loops"][1])
    res = resolver(e)
    sys0 = S.sys0
    Lent = e.project(M.arena(e, sys0, "ent"), prims.AL)
    Lgen = e.project(M.arena(e, sys0, "gen"), prims.AL)
    h = walks(e, li, Lent)
    g = walks(e, lg, Lgen)
    R.check(h is not None, "entities:all", "the loop at %s does not visit every entity exactly once" % li.where(), "force stage walks all entities: " + li.where())
    R.check(g is not None, "generators:all", "the loop at %s does not visit every force generator exactly once" % lg.where(), "force stage walks all generators: " + lg.where())
    if h is None or g is None:
        return
    vals = [subst(e, x, None, 1, res) for x in ev["vals"]]
    # who is asked about what
    gen = vals[0]
    R.check(gen.op == "sel" and gen.args[1] is g, "call:generator", "the generator asked is not the one of the current round", "each generator is asked once per entity")
    R.check(vals[1] is S.dt, "call:dt", "the generator is not given the step's dt", "generator gets dt")
    R.check(vals[3] is h, "call:entity", "the generator is asked about another entity than the one of the current round", "generator gets the current entity")
    R.check(vals[2].op == "ref" and vals[2].attr == (SELF, ()), "call:system", "the generator is not given the system", "generator sees the system itself")

    head, back = li.head, li.backst
    mass = M.efield(e, sys0, h, "total_mass")
    massok = t.band(t.bvar(mk("batom", (mass,), "isfin")), t.tobdd(t.flt(epsilon(), mass)))
    sub = Subst(e, None, 1, res)
    cond = sub.b(ev["cond"])
    rounds = t.band(t.band(roundcond(li, sub), roundcond(lg, sub)), finished(e, ev["loops"], sub))
    rounds = t.band(rounds, t.bnot(tiny(S)))
    cond = t.band(cond, rounds)
    want = t.band(rounds, massok)
    R.check(order.equivalent(e, cond, want) is None, "call:condition", "generators are asked about an entity when %s, required: exactly for finite total mass above the tolerance" % t.showb(t.bcons(cond, rounds), 4, 2), "forces asked for exactly the entities of finite, non-negligible mass")

    F = e.project(subst(e, ev["ret"], None, 1, res), M.d.fproj(M.d.type_named("force::Force"), "force"))
    P = e.project(subst(e, ev["ret"], None, 1, res), M.d.fproj(M.d.type_named("force::Force"), "position"))
    alg.setkind(F, "v")
    alg.setkind(P, "v")

    def fld(st, *n):
        return subst(e, M.efield(e, M.system(st), h0, *n), None, 1, res)
    h0 = h
    # values left by one round of the entity loop
    mb = e.project(M.arena(e, M.system(back), "ent"), prims.AM)
    mb = subst(e, mb, None, 1, res)
    mh = e.project(M.arena(e, M.system(head), "ent"), prims.AM)
    ch = stores(mb, mh)
    R.check(ch is not None, "frame:shape", "the force stage changes entities in a way that is not understood", None)
    if ch is None:
        return
    vp = (M.d.fproj(M.ient, "velocity"),)
    wp = (M.d.fproj(M.ient, "angular_velocity"),)
    for c, k, p, v in ch:
        ok = k is h and any(tuple(q[:2] for q in p) == tuple(q[:2] for q in w) for w in (vp, wp))
        R.check(ok, "frame:entity", "the force stage changes %s of an entity" % t.showattr(p) + ("" if k is h else " other than the current one"), "force stage writes only the current entity's velocities")
    v0, v1 = e.mksel(mh, h, vp), e.mksel(mb, h, vp)
    w0, w1 = e.mksel(mh, h, wp), e.mksel(mb, h, wp)
    for x in (v0, w0):
        alg.setkind(x, "v")
    base = Alg(e)
    ss = Sums(e, base)
    mp = {}
    for m in lg.mus:
        if base.kind(m) == "v":
            m_next = subst(e, lg.mus[m]["next"], None, 1, res)
            lg.mus[m]["next"] = m_next
            tot = ss.total(lg, m)
            if tot:
                mp[m.id] = tot[1]
    R.setc("force_sums", len(mp))
    Fs = t.sym("sumF")
    alg.setkind(Fs, "v")
    Ts = t.sym("sumT")
    alg.setkind(Ts, "v")
    x = M.efield(e, sys0, h, "orientation", "position")
    alg.setkind(x, "v")
    mp[Fs.id] = ss.vsum(lg, base.v(F))
    mp[Ts.id] = ss.vsum(lg, base.v(t.cross(t.sub(P, x), F)))
    done = finished(e, ev["loops"][:1], sub)
    dt = S.dt
    alg.setkind(dt, "s")
    I = invinertia(M, e, sys0, h)
    same(R, e, "velocity", v1, t.add(v0, t.div(t.mul(dt, Fs), mass)), "an entity of finite mass gains dt/m times the sum of the forces", pc=t.band(done, massok), subst=mp)
    same(R, e, "velocity:none", v1, v0, "an entity of infinite or negligible mass is not accelerated", pc=t.band(done, t.bnot(massok)), subst=mp)
    zero, Iinv, cases = I
    for c, w in cases:
        same(R, e, "angular_velocity", w1, t.add(w0, mk("mm", (w, t.mul(dt, Ts)))) if w is not None else w0, "an entity of finite mass gains I^-1 times dt times the sum of the torques about its position" if w is not None else "an entity whose inertia cannot be inverted is not turned",
             pc=t.band(done, t.band(massok, c)), subst=mp)
    same(R, e, "angular_velocity:none", w1, w0, "an entity of infinite or negligible mass is not turned by forces", pc=t.band(done, t.bnot(massok)), subst=mp)


def tiny(S):
    return t.tobdd(t.flt(t.fabs(S.dt), epsilon()))


def epsilon():
    return t.cflt("1e-06")


def invinertia(M, e, sysv, h):
    """world-space inverse inertia of entity h from its fields: (.., .., [(cond, matrix or None when not invertible)])"""
    q = M.efield(e, sysv, h, "orientation", "rotation")
    P = M.efield(e, sysv, h, "prepped_moment_of_inertia")
    alg.setkind(q, "q")
    alg.setkind(P, "m")
    I = mk("mm", (mk("mm", (mk("qmat", (q,)), P)), mk("transpose", (mk("qmat", (q,)),))))
    ok = t.bvar(mk("batom", (I,), "invertible"))
    return None, None, [(ok, mk("minv", (I,))), (t.bnot(ok), None)]
