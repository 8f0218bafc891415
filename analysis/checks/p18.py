"""Friction opposes sliding, never reverses it and obeys Coulomb's law."""
from contact import *


def run(M, R):
    R.expl = ("in the round of the collision loop that handles a collision, the normal impulse, the sliding velocity it leaves, its direction and the response to a unit impulse "
              "along it are recognised in the resulting velocities by equality of normal forms; the rest of the impulse is then compared with Coulomb's law, limited to what stops the sliding")
    Z = Contact(M)
    e = Z.e
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    Z.layers()
    for what, n in Z.seen:
        R.count("parts_recognised", n)
    missing = [w for w, c in Z.seen if not c]
    jn = Z.jn if not any(w == "normal impulse" for w in missing) else Z.jref
    static = t.tobdd(t.flt(t.div(t.fabs(Z.an), Z.ls), Z.product("threshold")))
    mu = ite(static, Z.product("mu_s"), Z.product("mu_d"))
    want = t.mul(mu, t.fabs(jn))
    stop = t.div(Z.ls, Z.Kt)
    f = ite(t.tobdd(t.flt(num(0.0), Z.ls)), ite(t.tobdd(t.flt(stop, want)), stop, want), num(0.0))
    for i, n, k in ((0, "first", -1.0), (1, "second", 1.0)):
        rest = t.sub(Z.impulse(i), t.mul(num(-k), t.mul(jn, Z.nn)))
        try:
            d = alg.limited(3000000, case_eq, e, rest, t.mul(t.mul(num(k), f), Z.tt), Z.massive)
            why = "" if d is None else "is %s instead of %s" % (show_nf(d[1]), show_nf(d[2]))
        except (alg.Budget, RuntimeError) as x:
            d, why = 1, "could not be shown: %s" % x
        R.check(d is None, "friction:" + n, "the friction impulse on the %s entity %s%s" % (n, why, " (not recognised: %s)" % ", ".join(missing) if missing else ""),
                "the %s entity's friction impulse is min(mu·|normal impulse|, what stops the sliding) against the sliding; mu is static below the friction threshold, else dynamic; none without sliding" % n)
    # that bound is what stops the sliding: an impulse j along t changes the speed along t by j·K(t)
    j = S_("j")
    d = num(0.0)
    for q, r in zip(Z.who, Z.r):
        d = t.add(d, t.dot(t.add(t.mul(t.div(j, q["m"]), Z.tt), t.cross(mk("mm", (q["J"], t.cross(r, t.mul(j, Z.tt)))), r)), Z.tt))
    same(R, e, "stops", d, t.mul(j, Z.K(Z.tt)), "an impulse j along the sliding changes its speed by j times the response K(t)")
    same(R, e, "factor", t.sub(Z.ls, t.mul(t.div(Z.ls, Z.Kt), Z.Kt)), num(0.0), "the bound |sliding|/K(t) stops the sliding", pc=t.tobdd(t.flt(num(0.0), Z.Kt)))
