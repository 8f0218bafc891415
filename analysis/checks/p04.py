"""Mass, center of mass and moment of inertia of every collider type, and the transport of tensors."""
from forms import *

DIAG = lambda a, b, c: mk("diag", (agg("vec3", [a, b, c]),))


def comp(v, i):
    return mk("fld", (v,), i) if v.op != "agg" else v.args[i]


def run(M, R):
    R.expl = ("the mass, local center of mass and inertia tensor of each collider type, and the public functions that shift and rotate tensors, are computed as algebraic expressions "
              "and compared in normal form with the textbook formulas (solid sphere, solid box, parallel axis theorem, R I R^T)")
    seen = 0
    for path, info in sorted(M.ctraits.items()):
        tid = info["tid"]
        kind = path.split("::")[-1]
        o = Obj(M, tid, kind)
        m = o.get("mass") if "mass" in o.names else num(0.0)
        if "mass" not in o.names and "Mesh" not in kind:
            raise AnalysisError("collider type %s has no mass field" % path)
        Z = mk("zeros", (), "mat")
        if "Sphere" in kind:
            r = o.get("radius")
            i = t.mul(t.div(num(2.0), num(5.0)), t.mul(m, t.mul(r, r)))
            com, inertia = o.get("center"), DIAG(i, i, i)
        elif "Box" in kind:
            lo, hi = o.get("min_corner"), o.get("max_corner")
            com = t.add(o.get("position"), t.mul(num(0.5), t.add(lo, hi)))
            s2 = [t.mul(t.sub(comp(hi, k), comp(lo, k)), t.sub(comp(hi, k), comp(lo, k))) for k in range(3)]
            c = t.div(m, num(12.0))
            inertia = DIAG(t.mul(c, t.add(s2[1], s2[2])), t.mul(c, t.add(s2[0], s2[2])), t.mul(c, t.add(s2[0], s2[1])))
        elif "Null" in kind:
            com, inertia = o.get("position"), o.get("moment_of_inertia")
        elif "Plane" in kind or "Mesh" in kind:
            com, inertia = o.get("position"), Z
        else:
            R.check(False, "type:" + kind, "collider type %s has no reference formula" % path)
            continue
        seen += 1
        for meth, want, what in (("get_mass", m, "the stored mass"), ("get_local_center_of_mass", com, "the center of mass of the shape"), ("get_moment_of_inertia_tensor", inertia, "the inertia tensor of the uniform shape about its center of mass")):
            f = M.d.fns[info["m"][meth]]
            a0 = o.ref
            e, s, r = call(M, R, f, [a0], [o])
            key = "%s::%s" % (kind, meth)
            known_calls(R, e, key, key)
            nopanic(R, e, key, key)
            unchanged(R, s, [o], key, key)
            if meth == "get_moment_of_inertia_tensor":
                # compared through y.(T x) for arbitrary x and y, so that every way of building the matrix is the same
                ex = [agg("vec3", [S("%s%d" % (n, k)) for k in range(3)]) for n in "xy"]
                same(R, e, key, t.dot(ex[1], mk("mm", (r, ex[0]))), t.dot(ex[1], mk("mm", (want, ex[0]))), "%s is %s" % (key, what))
            else:
                same(R, e, key, r, want, "%s is %s" % (key, what))
    R.floor("collider_types", seen, 5)
    # the public collider types agree on the center of mass
    pub = 0
    for f in M.d.fns.values():
        if f["local"] and f.get("impl_trait") and str(f["impl_trait"]).endswith("collider::Collider") and f["name"] == "get_center_of_mass":
            tid = f["impl_self"]
            kind = M.d.types[tid]["path"].split("::")[-1]
            o = Obj(M, tid, kind)
            if "center" in o.names:
                want = o.get("center")
            elif "min_corner" in o.names:
                want = t.add(o.get("position"), t.mul(num(0.5), t.add(o.get("min_corner"), o.get("max_corner"))))
            else:
                want = o.get("position")
            e, s, r = call(M, R, f, [o.ref], [o])
            same(R, e, kind + "::get_center_of_mass", r, want, "%s::get_center_of_mass is the center of mass of the shape" % kind)
            pub += 1
    R.floor("public_collider_types", pub, 5)
    # transport of tensors
    o = Obj(M, M.orient, "o")
    com, I, m = V("com"), MM("I"), S("m")
    x, y = V("x"), V("y")
    fn = lambda n: "fluffy_tribble::orientation::Orientation::" + n
    e, s, r = call(M, R, fn("prep_moment_of_inertia"), [o.ref, mkref(("val", com), ()), m, mkref(("val", I), ())], [o])
    known_calls(R, e, "prep", "prep_moment_of_inertia")
    d = t.add(o.get("internal_origin_offset"), com)
    # y.(I + m(d.d E - d d^T))x, applied to two arbitrary vectors
    got = t.dot(y, mk("mm", (r, x)))
    want = t.add(t.dot(y, mk("mm", (I, x))), t.mul(m, t.sub(t.mul(t.dot(d, d), t.dot(x, y)), t.mul(t.dot(d, x), t.dot(d, y)))))
    same(R, e, "prep_moment_of_inertia", got, want, "prep_moment_of_inertia shifts the tensor by the parallel axis theorem to the orientation's position")
    e, s, r = call(M, R, fn("finalize_moment_of_inertia"), [o.ref, mkref(("val", I), ())], [o])
    known_calls(R, e, "finalize", "finalize_moment_of_inertia")
    q = o.get("rotation")
    same(R, e, "finalize_moment_of_inertia", r, mk("mm", (mk("mm", (qmat(q), I)), transpose(qmat(q)))), "finalize_moment_of_inertia is R I R^T")
    en = Obj(M, M.ent, "ent")
    e, s, r = call(M, R, "fluffy_tribble::entity::Entity::get_last_moment_of_inertia", [en.ref], [en])
    qq = qfrom(en.get("rotation"))
    I = en.get("last_prepped_moment_of_inertia")
    same(R, e, "get_last_moment_of_inertia", r, mk("mm", (mk("mm", (qmat(qq), I)), transpose(qmat(qq)))), "Entity::get_last_moment_of_inertia rotates the stored tensor with the entity's present rotation")
