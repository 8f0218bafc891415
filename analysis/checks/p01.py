"""Stale or unknown handles are inert: every public operation taking a handle reports failure,
changes nothing and cannot panic when the handle is not live."""
from model import *

# operation -> [(argument index, arena)]; confirmed by reading the API
HANDLES = {
    "get_entity": [(1, "ent")],
    "update_entity": [(1, "ent")],
    "remove_entity": [(1, "ent")],
    "get_collider": [(1, "col")],
    "update_collider": [(1, "col")],
    "remove_collider": [(1, "col")],
    "link_collider": [(1, "col"), (2, "ent?")],
    "remove_unary_force_generator": [(1, "gen")],
}


def run(M, R):
    R.expl = ("for each public operation that takes a handle, the final state and result of the whole operation (all callees analysed in context) "
              "are computed as gated value numbers; under the condition `handle not live` the state must equal the initial state, the result must be the failure value, and no panic site may be reachable")
    # every public method that takes a handle must be in the table
    hty = handle_types(M)
    seen = 0
    for f in M.public_api():
        idx = [i for i in range(1, f["argc"]) if mentions(M, f["locals"][i + 1][0], hty)]
        if not idx:
            continue
        seen += 1
        name = f["name"]
        spec = HANDLES.get(name) or [(i, guess_arena(M, f, i)) for i in idx]
        R.count("operations")
        for i, which in spec:
            e = M.engine()
            st = St({}, 1)
            args = e.default_args(f, st)
            args[0] = M.selfref()
            sys0 = init_root(SELF)
            a = args[i]
            opt = which.endswith("?")
            if opt:
                h = t.sym("handle")
                args[i] = Some(h)
                a = h
            which = which.rstrip("?")
            stale = t.bnot(M.alive(e, sys0, which, a))
            s, ret = M.run(e, f, args, st)
            R.count("functions_analysed", len(e.stats["fns"]))
            R.count("calls_resolved", e.stats["calls"])
            tag = "%s(arg%d)" % (name, i)
            for u, sites in e.unknown.items():
                R.check(False, "%s:unmodelled:%s" % (tag, u), "%s calls %s, whose effect on an unknown handle is not known" % (name, u))
            for ev in e.log:
                if ev["kind"] == "panic" and t.band(ev["cond"], stale):
                    R.check(False, "%s:panic:%s" % (tag, ev["site"][0]), "%s with a handle that is not live can panic (%s) at %s" % (name, ev["why"], where(ev)))
            if s is None:
                R.check(False, tag + ":diverges", "%s never returns" % name)
                continue
            ss = t.band(s.pc, stale)
            R.check(t.bimp(stale, s.pc), tag + ":returns", "%s with a handle that is not live does not always return" % name)
            v1 = restrict(M.system(s), ss)
            v0 = restrict(sys0, ss)
            ok = v1 is v0
            R.check(ok, tag + ":writes", "%s with a handle that is not live changes the system: %s" % (name, changed(e, stale)), tag + ": state unchanged under !live")
            k = ret_kind(M, f)
            if k:
                bad = t.band(ss, t.bnot(fail_cond(e, ret, k)))
                R.check(bad == 0, tag + ":result", "%s with a handle that is not live can report success when %s" % (name, t.showb(bad, 4, 2)), tag + ": result is the failure value under !live")
    R.floor("operations", seen, 8)
    # no handle is ever forged from raw parts
    n = 0
    for f in M.d.fns.values():
        for b in f["blocks"]:
            tm = b["t"]
            if tm["k"] == "call" and tm["f"]["k"] == "fn":
                n += 1
                p = tm["f"]["fn"]["path"]
                if f["local"] and "generational_arena" in p and ("raw_parts" in p or "unknown_gen" in p):
                    R.check(False, "forged:%s" % f["path"], "%s uses %s: the generation of a handle is bypassed" % (f["path"], p))
    R.setc("call_sites_scanned", n)


def where(ev):
    return "%s (%s)" % (ev["site"][0].replace("fluffy_tribble::", ""), ev["site"][1])


def changed(e, c):
    for ev in e.log:
        if ev["kind"] == "write" and ev["root"] == SELF and t.band(ev["cond"], c):
            return "%s written at %s" % (t.showplace(ev["root"], ev["projs"])[:80], where(ev))
    return "see state"


def handle_types(M):
    return [i for i, ty in enumerate(M.d.types) if ty and ty["k"] == "adt" and ty["path"].endswith("generational_arena::Index")]


def mentions(M, tid, hty, n=0):
    ty = M.d.types[tid]
    if tid in hty:
        return True
    if n < 3 and ty["k"] == "adt" and ty["path"] == OPT:
        return any(mentions(M, a, hty, n + 1) for a in ty["args"])
    if n < 3 and ty["k"] == "ref":
        return mentions(M, ty["to"], hty, n + 1)
    return False


def guess_arena(M, f, i):
    raise AnalysisError("public operation %s takes a handle and is not in the table of handle operations" % f["name"])
