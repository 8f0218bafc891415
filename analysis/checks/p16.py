"""Collisions conserve momentum and touch only the two that hit each other."""
from contact import *


def run(M, R):
    R.expl = ("PhysicsSystem::step is analysed as a whole; in the round of its collision loop that handles a collision, the velocities afterwards are terms over the masses, "
              "inverse inertias, velocities, offsets and the contact. Their changes are compared in normal form, with lengths, quotients and conditions taken as opaque values "
              "that both sides share, so the identities hold whatever the size of the impulses")
    Z = Contact(M)
    e, it = Z.e, Z.iter
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    a, b = Z.who

    def law(key, got, want, what, pc):
        try:
            d = alg.case_eq(e, got, want, pc, None, 2000, None, True)
        except RuntimeError:
            d = (1, {}, {})
        if d is not None:
            try:
                d = alg.limited(400000, alg.case_eq, e, got, want, pc)
            except (alg.Budget, RuntimeError) as x:
                return R.check(False, key, "%s: could not be shown (%s)" % (what, x))
        R.check(d is None, key, what + ": does not hold", what)
    pc = Z.massive
    for d, n in ((a, "first"), (b, "second")):
        for f in ("v'", "w'"):
            R.check(d[f] is not d[f[0]], "response:%s:%s" % (n, f[0]), "a collision does not change the velocity of the %s entity" % n, "a collision changes %s of the %s entity" % (f[0], n))
    P = [t.mul(d["m"], t.sub(d["v'"], d["v"])) for d in Z.who]
    law("momentum", P[0], t.neg(P[1]), "what one entity gains in linear momentum the other loses", pc)
    for d, p, n in ((a, P[0], "first"), (b, P[1], "second")):
        r = t.sub(Z.pp, d["x"])
        law("angular:" + n, t.sub(d["w'"], d["w"]), mk("mm", (d["J"], t.cross(r, p))), "the %s entity's spin changes by the moment of its impulse about its own centre, times its inverse inertia in the world frame" % n, pc)
        zero = t.tobdd(t.feq(num(0.0), d["m"]))
        for f in ("v", "w"):
            law("massless:%s:%s" % (n, f), d[f + "'"], d[f], "an entity without mass keeps its velocity (%s)" % f, zero)
    # nobody else
    j = t.sym("j")
    k = mk("aitem", (Z.L, j))
    for who, w, pcw in Z.cases(j):
        if w is not j:
            continue
        g = Subst(e, None, pcw)
        for n in ("velocity", "angular_velocity"):
            got = g(Z.found(Z.fld(Z.back, k, n)))
            R.check(got is Z.fld(Z.head, k, n), "bystander:" + n, "a collision changes the %s of an entity that takes no part: %s" % (n, t.show(got, 3)[:160]), "a collision leaves the %s of every other entity alone" % n)
    # a round without collision
    for pcn, s in [(Z.fix(Z.N, it.back), it.backst)] + Z.ends(Z.N) + Z.ends(Z.F):
        if pcn == 0:
            continue
        F = Z.F if any(s is x for _, x in Z.ends(Z.F)) else Z.N
        for n in ("velocity", "angular_velocity"):
            got = Z.fix(F, Z.fld(M.system(s), k, n))
            R.check(got is Z.fld(Z.head, k, n), "free:" + n, "the %s of an entity changes in a round without a collision: %s" % (n, t.show(got, 3)[:160]), "without a collision the %s of every entity stays" % n)
