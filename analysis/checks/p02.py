"""An operation that reports failure leaves the system exactly as it was."""
from model import *
from checks.p01 import where


def run(M, R):
    R.expl = ("for each public operation whose result can signal failure, the final state is computed as a gated value over all callees; "
              "under the condition that the returned value is the failure value it must be identical to the initial state")
    n = 0
    for f in M.public_api():
        k = ret_kind(M, f)
        if not k or not f["has_self"] or not mutself(M, f):
            continue
        n += 1
        name = f["name"]
        e = M.engine()
        st = St({}, 1)
        args = e.default_args(f, st)
        args[0] = M.selfref()
        sys0 = init_root(SELF)
        cases = [(name, args)]
        # an argument of the wrapper enum: one run per variant keeps the states small
        for i in range(1, f["argc"]):
            if f["locals"][i + 1][0] == M.wrapper:
                cases = []
                for vi, vn, tid in M.wrapper_variants():
                    a = list(args)
                    a[i] = M.wrap(vi, t.sym("src"))
                    cases.append(("%s(%s)" % (name, vn), a))
        for tag, a in cases:
            e = M.engine()
            s, ret = M.run(e, f, a, St({}, 1))
            R.count("functions_analysed", len(e.stats["fns"]))
            R.count("calls_resolved", e.stats["calls"])
            for u in e.unknown:
                R.check(False, "%s:unmodelled:%s" % (tag, u), "%s calls %s, whose effect is not known" % (name, u))
            fail = t.band(s.pc, fail_cond(e, ret, k))
            R.count("failure_conditions" if fail else "infallible", 1)
            if fail == 0:
                continue
            v1 = restrict(M.system(s), fail)
            v0 = restrict(sys0, fail)
            ok = v1 is v0 or unchanged(M.system(s), sys0, fail)
            why = ""
            if not ok:
                l = [ev for ev in e.log if ev["kind"] == "write" and ev["root"] == SELF and t.band(ev["cond"], fail)]
                why = "; ".join("%s written at %s when %s" % (t.showplace(ev["root"], ev["projs"])[:60], where(ev), t.showb(t.band(ev["cond"], fail), 3, 1)[:160]) for ev in l[:2])
            R.check(ok, tag + ":state", "%s reports failure after changing the system: %s" % (name, why), "%s: state unchanged whenever the result is a failure" % tag)
    R.floor("fallible_operations", n, 7)
    R.floor("failure_conditions", R.cov.get("failure_conditions", 0), 10)


def mutself(M, f):
    ty = M.d.types[f["locals"][1][0]]
    return ty["k"] == "ref" and ty.get("mut")


def unchanged(a, b, pc):
    """a is b wherever pc holds: case by case"""
    if pc == 0 or a is b or a is UNINIT:
        return True
    if a.op == "ite":
        return unchanged(a.args[0], b, t.band(pc, a.attr)) and unchanged(a.args[1], b, t.band(pc, t.bnot(a.attr)))
    r = restrict(a, pc)
    if r is b:
        return True
    if r is not a:
        return unchanged(r, b, pc)
    if a.op == "agg" and "#" not in a.attr and b.op in ("fld", "sym"):
        return all(unchanged(x, mk("fld", (b,), i), pc) for i, x in enumerate(a.args))
    return False
