"""The collision records tell what happened in the step."""
from contact import *


def run(M, R):
    R.expl = ("the list of collision records at the start, in each case of a round, and at the end of PhysicsSystem::step; the record added for a collision is compared field by field "
              "with the quantities the response is made of (recognised by equal normal forms)")
    Z = Contact(M)
    e, S, it = Z.e, Z.S, Z.iter
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    P = M.d.fproj(M.sys, "collision_records")
    lst = lambda sysv: e.project(sysv, P)
    ln, mp = lambda v: e.project(v, prims.VL), lambda v: e.project(v, prims.VM)
    L = ln(lst(Z.head))
    m0 = mp(lst(Z.head))
    start = it.init(L) if L.op == "mu" else L
    R.check(start is cint(0), "start", "the records of earlier steps are still there when the simulation starts: %s" % t.show(start, 3)[:120], "the list is empty when the simulation starts")
    rec_t = M.d.type_named("collision_record::CollisionRecord")
    names = [f["n"] for f in M.d.types[rec_t]["variants"][0]["f"]]
    # a round with a collision
    v = Z.found(lst(Z.back))
    n1, m1 = ln(v), mp(v)
    R.check(n1 is t.iadd(L, cint(1)), "one", "a collision does not add exactly one record: length %s" % t.show(n1, 3)[:120], "a collision adds one record")
    ok = m1.op == "store" and m1.args[0] is m0 and m1.args[1] is L and m1.attr == ()
    R.check(ok, "append", "the records of earlier collisions in the step do not stay as they were", "the record goes to the end of the list, the others stay")
    r = e.mksel(m1, L, ())
    get = lambda n: e.project(r, M.d.fproj(rec_t, n))
    g = Z.g
    for n, k, w in (("first_entity", Z.e1, "first"), ("second_entity", Z.e2, "second")):
        R.check(get(n) is k, "entity:" + n, "the record's %s is %s" % (n, t.show(get(n), 3)[:120]), "the record names the %s entity the narrow phase was asked about" % w)
    num_ = {n: Z.name(g(get(n))) for n in ("position", "normal", "restitution_coefficient", "impulse_magnitude", "time")}
    for n in ("position", "normal"):
        alg.setkind(num_[n], "v")
    for n in ("restitution_coefficient", "impulse_magnitude"):
        alg.setkind(num_[n], "s")
        Z.V["rec", n] = Subst(e, None, Z.massive)(num_[n])
    R.check(num_["position"] is Z.pp, "position", "the recorded position is not that of the collision", "the recorded position is the contact point")
    R.check(num_["normal"] is Z.nn, "normal", "the recorded normal is not that of the collision", "the recorded normal is the contact normal")
    Z.layers()
    missing = [w for w, c in Z.seen[:11] if not c]
    miss = " (not recognised: %s)" % ", ".join(missing) if missing else ""
    same(R, e, "restitution", Z.NM.vals["rec", "restitution_coefficient"], Z.product("e"), "the recorded restitution is the product of the two colliders'" + miss, pc=Z.massive)
    jn = Z.jn if "normal impulse" not in missing else Z.jref
    same(R, e, "impulse", Z.NM.vals["rec", "impulse_magnitude"], t.fabs(jn), "the recorded impulse is the size of the impulse along the normal" + miss, pc=Z.massive)
    # time: T left of dt, and whatever else the loop keeps about it
    T, dt = Z.T, S.dt
    if T is None:
        R.check(False, "time", "the step keeps no time left")
        return
    Tn = Z.found(it.nxt(T))
    rel = {}
    for m in it.mus:
        if m is T or m in it.counters():
            continue
        i0 = it.init(m)
        forms = []
        if i0 is num(0.0):
            forms = [t.sub(num(1.0), t.div(T, dt)), t.sub(dt, T)]
        elif i0 is num(1.0):
            forms = [t.div(T, dt)]
        for f in forms:
            nx = Z.found(it.nxt(m))
            try:
                if case_eq(e, subst(e, nx, {m: f}), subst(e, f, {T: Tn}), Z.distinct) is None:
                    rel[m] = f
                    break
            except RuntimeError:
                pass
    R.setc("quantities_tied_to_the_time_left", len(rel))
    tm = subst(e, g(get("time")), rel)
    same(R, e, "time", tm, t.sub(dt, g(Tn)), "the recorded time is the time from the start of the step to the impact", pc=Z.distinct)
    # no collision, and the rest of the step
    Nb = t.band(Z.none(it.back), Z.pcN)
    if Nb:
        R.check(Z.none(lst(Z.back)) is lst(Z.head), "none", "a round without a collision changes the records")
    for F, ends in (("none", Z.ends(Z.N)), ("found", Z.ends(Z.F))):
        for c, s in ends:
            f = Z.none if F == "none" else Z.found
            x = lst(M.system(s))
            R.check(f(ln(x)) is L and f(mp(x)) is m0, "end:" + F, "the records change when the step ends without a further collision", "ending the rounds adds nothing")
    x = lst(M.system(S.s))
    end = []
    for f in (ln, mp):
        ys = [(s.pc, f(lst(M.system(s)))) for s in it.info["exits"]]
        end += [restrict(f(x), c) is restrict(y, c) for c, y in ys]
        vals = [l for c, y in ys for _, l in t.leaves(y)]
        end += [any(l is y for y in vals) for c, l in t.leaves(restrict(f(x), Z.pcN)) if t.band(c, Z.pcN)]
        # the step that takes no time
        no = t.bnot(Z.pcN)
        end += [l is f(lst(S.sys0)) for c, l in t.leaves(restrict(f(x), no)) if t.band(c, no)]
    R.check(all(end) and end, "after", "the records change after the last round", "the records stay as the last round left them; a step of no time leaves them alone")
    # as many as rounds
    limit = e.project(S.sys0, M.d.fproj(M.sys, "iteration_max"))
    cs = [m for m, i0 in it.counters().items() if i0 is cint(0)]
    bound = [m for m in cs if t.band(it.back, t.bnot(t.tobdd(t.ilt(m, limit)))) == 0]
    R.check(bool(bound), "limit", "nothing keeps a step from recording more than iteration_max collisions", "a round only happens while fewer than iteration_max have; each adds at most one record")
    R.check(limit_unchanged(Z), "limit:fixed", "the iteration limit changes during the step", "the iteration limit stays")


def limit_unchanged(Z):
    M = Z.M
    p = M.d.fproj(M.sys, "iteration_max")
    return Z.e.project(Z.back, p) is Z.e.project(Z.S.sys0, p)
