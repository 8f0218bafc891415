"""The earliest collision of all pairs is the one that is handled."""
from round import *


def run(M, R):
    R.expl = ("the loops around the narrow-phase call in PhysicsSystem::step are shown to try every pair of entities and every pair of their colliders exactly once, and what they "
              "select to be overwritten exactly when a collision is reported, closing and earlier than the one kept so far; conditions are compared as BDDs up to the order theory of their operands")
    Z = Round(M)
    e, it = Z.e, Z.iter
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    for b in Z.cover:
        R.check(False, "pairs", b)
    R.check(not Z.cover, "pairs", "", "entities i<j, every collider of i with every collider of j, each once")
    R.setc("search_loops", len(Z.loops))
    # what the narrow phase is told about the motion
    for i, (o0, o1, k, n) in enumerate(((1, 2, Z.e1, "first"), (4, 5, Z.e2, "second"))):
        a = Z.col.args[0] if Z.col.op == "agg" else None
        end = Z.ws(Z.R.args[o1])
        get = lambda f: e.project(end, M.d.fproj(M.orient, f))
        x0, q0 = (Z.fld(Z.head, k, "orientation", f) for f in ("position", "rotation"))
        v, w = (Z.fld(Z.head, k, f) for f in ("velocity", "angular_velocity"))
        x1, q1 = get("position"), get("rotation")
        alg.setkind(x1, "v")
        alg.setkind(q1, "q")
        if Z.T is None:
            R.check(False, "motion:" + n, "the step keeps no time left")
            continue
        same(R, e, "motion:%s:position" % n, x1, t.add(x0, t.mul(Z.T, v)), "the narrow phase is told where the %s entity would be at the end of the time left" % n)
        same(R, e, "motion:%s:rotation" % n, q1, mk("qmul", (qfrom(t.mul(Z.T, w)), q0)), "the narrow phase is told how the %s entity would be turned at the end of the time left" % n)
        R.check(get("internal_origin_offset") is Z.fld(Z.head, k, "orientation", "internal_origin_offset"), "motion:%s:origin" % n, "the predicted pose of the %s entity has another local origin" % n, "the predicted pose keeps the local origin of the %s entity" % n)
    # which pairs are asked about
    npath = (M.d.fproj(M.ient, "neighbors"),)
    c = [t.bvar(mk("contains", (Z.M.efield(e, Z.head, a, "neighbors"), b))) for a, b in ((Z.e1, Z.e2), (Z.e2, Z.e1))]
    ref = t.band(t.bnot(c[0]), t.bnot(c[1]))
    w1, w2 = Z.w1, Z.w2
    N = Z.drivers[0][2] if Z.drivers[0][1] == "count" else None
    struct = t.band(t.tobdd(t.ilt(w1, w2)) if Z.k1.args[1] is Z.drivers[0][0] else t.tobdd(t.ilt(w2, w1)), Z.distinct)
    if N is not None:
        N = Z.ws(N)
        struct = t.band(struct, t.band(t.tobdd(t.ilt(w1, N)), t.tobdd(t.ilt(w2, N))))
    ti = Z.tried
    odd = []
    for x in t.bsupport(ti):
        v = t.bvar(x)
        if x.op in ("more", "live", "done") or x.op == "batom" and str(x.attr).startswith("ovf") or inrounds(Z, x):
            # inside the walks, rounds left, nothing panicked, time to simulate
            struct = t.band(struct, v if t.band(ti, v) else t.bnot(v))
    th = order.theory(Alg(e), [ti, ref, struct])
    skip = t.band(t.band(t.band(struct, ref), t.bnot(ti)), th)
    extra = t.band(t.band(ti, t.bnot(ref)), th)
    R.check(skip == 0, "skipped", "pairs of colliders are skipped although their entities are not known to rest on each other: when " + t.showb(skip, 4)[:200], "every pair of entities that do not rest on each other is checked")
    R.check(extra == 0, "resting", "pairs of entities that rest on each other are checked: when " + t.showb(extra, 4)[:200], "entities known to rest on each other (either way) are left alone")
    # selection
    cs = set(Z.conds.values())
    R.check(len(cs) == 1, "together", "the details of the earliest collision are not replaced together", "all %d details of the collision kept are replaced together" % len(Z.conds))
    U = Z.ws.b(t.bor(0, next(iter(cs))))
    tms = [m for key, (m, nx) in Z.vals.items() if Z.mpF[Z.chain(key)[0]] is Z.time]
    held = [ite(h, x, num(1.0)) for x, h in kept(Z, Z.time, with_=1)] if not tms else []
    if len(tms) != 1 and not held:
        R.check(False, "kept:time", "the time of the collision kept so far is not what its impact time was")
        return
    if tms:
        held = tms
        same(R, e, "window", Z.inits[tms[0].attr[1:]], num(1.0), "collisions count up to the end of the time left (fraction 1)")
    pc = t.band(t.band(Z.distinct, Z.proper), t.bnot(t.bvar(mk("batom", (Z.approach,), "isnan"))))
    for y in kept(Z, *Z.times):                # what was kept was proper too
        pc = t.band(pc, t.bnot(t.bvar(mk("batom", (y,), "isnan"))))
    for tm in held:
        want = t.band(t.band(Z.tried, Z.ishit), t.band(Z.closing, t.tobdd(t.flt(Z.time, tm))))
        ok = order.equivalent(e, U, want, pc)
        if ok is None:
            break
    R.check(ok is None, "selection", "a collision is kept under another condition than: reported, approaching at the contact by at least EPSILON, and before the one kept so far: differs when %s" % (t.showb(ok, 4)[:200] if isinstance(ok, int) else ok),
            "a collision replaces the one kept exactly when it is reported, closing, and earlier")
    # the witness
    for key, (m, nx) in Z.vals.items():
        v = Z.mpF[Z.chain(key)[0]]
        R.check(not occurs(v, lambda y: y in Z.loops[-1].mus), "witness:" + str(m.attr[1][-1]), "a detail of the collision kept does not come from that collision", "every detail kept comes from the same pair")
    # one way or the other, it is handled
    R.check(t.band(Z.found(it.back), Z.pcF) != 0, "handled", "a collision found is never handled", "a collision found is handled and the search starts again")
    bn = Z.none(it.back)
    R.check(t.band(bn, Z.pcN) == 0, "over", "the search goes on although no collision was found", "without a collision the search ends")


def kept(Z, *what, with_=0):
    """what the collision kept so far has in place of these parts of the one found, where all of it is one Option; with the condition that there is one"""
    out = []
    for key, (m, nx) in Z.vals.items():
        i, v = Z.inits[key], Z.mpF[Z.chain(key)[0]]
        if i.op == "agg" and t.variant_of(i) == 0 and v.op == "agg" and t.variant_of(v) == 1:
            for p in [p for w in what for p in places(v, w)]:
                x = m
                for k in p:
                    x = Z.e.project(x, k)
                alg.setkind(x, "s")
                out.append((x, t.bvar(mk("is", (m,), 1))) if with_ else x)
    return out


def places(v, x):
    """projections that lead from value v to its part x"""
    if v is x:
        return [()]
    if v.op == "agg":
        k = t.variant_of(v)
        n = len(v.args)
        pre = () if k is None else (("v", k),)
        return [pre + (("f", i, n, v.attr),) + p for i, a in enumerate(v.args) for p in places(a, x)]
    back = ()
    while x.op in ("fld", "as") and x is not v:
        back = ((("f", x.attr, x.attr + 1, "") if x.op == "fld" else ("v", x.attr)),) + back
        x = x.args[0]
    return [back] if x is v else []


def inrounds(Z, x):
    """an atom that only says that the step takes time or that rounds are left"""
    S = Z.S
    dt = t.bsupport(Z.pcN)
    if x in dt:
        return True
    inner = set()
    for lp in Z.loops:
        inner |= set(lp.mus)
    if x.op in ("lt", "ieq") and (x.attr == "i" or x.op == "ieq"):
        # counts of rounds and of finished walks, not of the pair
        return not occurs(x, lambda y: y is Z.w1 or y is Z.w2 or y in inner) and occurs(x, lambda y: y.op == "mu")
    return False
