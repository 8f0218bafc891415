"""The normal impulse follows Newton's law of restitution."""
from contact import *


def run(M, R):
    R.expl = ("in the round of the collision loop that handles a collision, the approach speed at the contact, the response of the two bodies to a unit impulse, the colliders' "
              "coefficients and the normal impulse made of them are recognised in the resulting velocities by equality of normal forms, each shown for all values of its parts; "
              "the momentum along the normal is then compared with the law of restitution")
    Z = Contact(M)
    e = Z.e
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    Z.layers()
    for what, n in Z.seen:
        R.count("parts_recognised", n)
    for d, n in ((Z.who[0], "first"), (Z.who[1], "second")):
        R.check(d["v'"] is not d["v"], "response:" + n, "a collision does not change the velocity of the %s entity" % n, "a collision changes the velocity of the %s entity" % n)
    k = 1
    for i, n in ((0, "first"), (1, "second")):
        try:
            d = alg.limited(3000000, case_eq, e, t.dot(Z.impulse(i), Z.nn), t.mul(num(float(k)), Z.jn) if any(w == "normal impulse" and c for w, c in Z.seen) else t.mul(num(float(k)), Z.jref), Z.massive)
            why = "" if d is None else "is %s instead of %s" % (show_nf(d[1]), show_nf(d[2]))
        except (alg.Budget, RuntimeError) as x:
            d, why = 1, "could not be shown: %s" % x
        missing = [w for w, c in Z.seen[:11] if not c]
        R.check(d is None, "restitution:" + n, "the momentum the %s entity gains along the contact normal %s%s" % (n, why, " (not recognised: %s)" % ", ".join(missing) if missing else ""),
                "the %s entity gains %s(1+e)·(approach speed)/(1/m1+1/m2+rotation) along the normal, nothing when neither can move; e is the product of the colliders' coefficients at the pose of impact" % (n, "-" if k > 0 else ""))
        k = -k
    # what this does to the normal speed: an impulse j along n changes it by j·K, so -(1+e)a/K turns a into -e·a
    same(R, e, "reverses", t.sub(t.dot(Z.dv1, Z.nn), t.dot(Z.dv, Z.nn)), t.mul(Z.jn, Z.K(Z.nn)), "an impulse j along the normal changes the speed of approach by j times the response K")
    K = Z.Kn
    j = t.div(t.neg(t.mul(t.add(num(1.0), Z.product("e")), Z.a)), K)
    same(R, e, "factor", t.add(Z.a, t.mul(j, K)), t.neg(t.mul(Z.product("e"), Z.a)), "-(1+e)·a/K turns the approach speed a into -e·a", pc=t.tobdd(t.flt(num(0.0), K)))
