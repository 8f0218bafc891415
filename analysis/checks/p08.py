"""Only valid values enter the system, and every valid value is accepted."""
from forms import *
import order
from checks.p06 import epsilon


def ge0(x):
    return t.tobdd(t.fle(num(0.0), x))


def gt(x, c):
    return t.tobdd(t.flt(c, x))


def wanted(M, kind, o, v):
    """reference: the documented constraints of a public collider value"""
    g = lambda n: o.get(n, v=v)
    if "Sphere" in kind:
        return t.band(gt(g("radius"), num(0.05)), ge0(g("mass")))
    if "Plane" in kind:
        return t.band(ge0(g("mass")), gt(t.norm(g("normal")), epsilon()))
    if "Null" in kind:
        return ge0(g("mass"))
    if "Mesh" in kind:
        r = 1
        for n, k in (("vertices", 3), ("faces", 1), ("edges", 1)):
            r = t.band(r, t.tobdd(t.ilt(cint(k - 1), length(M, o, g(n), n))))
        return r
    if "Box" in kind:
        r = ge0(g("mass"))
        for i in range(3):
            d = t.sub(mk("fld", (g("max_corner"),), i), mk("fld", (g("min_corner"),), i))
            r = t.band(r, gt(t.fabs(d), epsilon()))
        return r
    raise AnalysisError("collider type %s has no reference constraint" % kind)


def length(M, o, v, n):
    return mk("fld", (v,), 0)


def run(M, R):
    R.expl = ("the exact condition under which each add and update operation succeeds is computed as a BDD over the comparisons of the source values and compared, in every region of "
              "their values (below, at and above each constant, infinite, NaN), with the documented constraints")
    n = 0
    en = Obj(M, M.ent, "ent")
    ok_ent = ge0(en.get("own_mass"))

    def accepted(name, args, tag):
        f = M.api(name)
        e = M.engine()
        s, ret = M.run(e, f, args, St({}, 1))
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        known_calls(R, e, tag, name)
        fail = fail_cond(e, ret, ret_kind(M, f))
        return e, t.band(s.pc, t.bnot(fail)), s.pc

    def must(e, got, want, pc, key, what):
        d = order.equivalent(e, got, want, pc)
        return R.check(d is None, key, "%s: %s" % (what, "" if d is None else "wrong when " + t.showb(d, 4, 1)[:300]), what)
    e, acc, pc = accepted("add_entity", [M.selfref(), en.v], "add_entity")
    must(e, acc, ok_ent, pc, "add_entity", "add_entity accepts an entity exactly when its mass is zero or more")
    h = t.sym("h")
    sys0 = init_root(SELF)
    live = M.alive(e, sys0, "ent", h)
    e, acc, pc = accepted("update_entity", [M.selfref(), h, en.v], "update_entity")
    must(e, acc, t.band(live, ok_ent), pc, "update_entity", "update_entity accepts values exactly when the entity exists and the mass is zero or more")
    for vi, vn, tid in M.wrapper_variants():
        kind = M.d.types[tid]["path"].split("::")[-1]
        src = M.struct_sym(tid, "src" + vn)
        o = Obj(M, tid, "src" + vn)
        want = wanted(M, kind, o, o.v)
        e, acc, pc = accepted("add_collider", [M.selfref(), M.wrap(vi, o.v)], "add_collider(%s)" % vn)
        must(e, acc, want, pc, "add_collider:" + vn, "add_collider accepts a %s exactly when its values are valid" % kind)
        k = t.sym("c")
        e, acc, pc = accepted("update_collider", [M.selfref(), k, M.wrap(vi, o.v)], "update_collider(%s)" % vn)
        old = e.mksel(M.amap(e, sys0, "col"), k, ())
        same_t = prims.dyncond(e, old, internal(M, kind))
        must(e, acc, t.band(t.band(M.alive(e, sys0, "col", k), same_t), want), pc, "update_collider:" + vn,
             "update_collider accepts a %s exactly when the collider exists, is of that type, and the values are valid" % kind)
        # the question users can ask beforehand
        fs = [f for f in M.d.fns.values() if f["local"] and f.get("impl_self") == tid and f.get("name") == "is_valid"]
        if len(fs) != 1:
            raise AnalysisError("%s::is_valid not found" % kind)
        e, s, r = call(M, R, fs[0], [o.ref], [o])
        must(e, t.tobdd(r), want, s.pc, "is_valid:" + vn, "%s::is_valid tells whether the system would accept it" % kind)
        n += 1
    R.floor("collider_types", n, 5)


def internal(M, kind):
    l = [p for p in M.ctraits if p.endswith("::Internal" + kind)]
    if len(l) != 1:
        raise AnalysisError("no internal collider type for " + kind)
    return l[0]
