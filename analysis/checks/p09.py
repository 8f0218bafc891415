"""What is read back is what was stored."""
from forms import *
from loops import Loop, walks


def fields(M, tid):
    return [(f["n"], f["t"], f["vis"] == "pub" if "vis" in f else None) for f in M.d.types[tid]["variants"][0]["f"]]


def payload(ret, want):
    """value carried by the leaves of the given variant"""
    r = None
    for c, l in t.leaves(ret):
        if l is UNINIT:
            continue
        if l.op == "agg" and t.variant_of(l) == want and l.args:
            r = l.args[0] if r is None else ite(c, l.args[0], r)
    if r is None:
        raise AnalysisError("no successful result found")
    return r


def ok_of(M, f, s, ret):
    return t.band(s.pc, t.bnot(fail_cond(None, ret, ret_kind(M, f))))


def proj(e, M, tid, v, n):
    return e.project(v, M.d.fproj(tid, n))


def is_empty(v):
    return v.op == "emptyset" or v.op == "agg" and not v.args


def comp3(v, i):
    return v.args[i] if v.op == "agg" and v.attr == "vec3" else mk("fld", (v,), i)


def stored(M, kind, n, o):
    """value expected for a public field after the system stored the collider"""
    x = o.get(n)
    if kind == "PlaneCollider" and n == "normal":
        return mk("normalize", (x,))
    return x


def run(M, R):
    R.expl = ("add/update followed by get are composed symbolically; every field of the value read back is compared, as an algebraic normal form, with the value stored")
    eng = {}

    def runapi(name, args, s):
        f = M.api(name)
        e = eng["e"] = M.engine() if not s.mem else eng["e"]     # one engine for operations in sequence
        s, r = M.run(e, f, args, s)
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        known_calls(R, e, name, name)
        return e, s, r, f
    # ---- entities
    en = Obj(M, M.ent, "src")
    e, s, ret, f = runapi("add_entity", [M.selfref(), en.v], St({}, 1))
    ok = s.pc = ok_of(M, f, s, ret)
    h = payload(ret, 0)
    e, s, r, _ = runapi("get_entity", [M.selfref(), h], s)
    got = some(r, ok, R, "entity:found", "the handle returned by add_entity does not find the entity")
    P = lambda n, v=None: proj(e, M, M.ent, got if v is None else v, n)
    if got is not None:
        for n in ("position", "velocity", "angular_velocity", "own_mass"):
            same(R, e, "entity:add:" + n, P(n), en.get(n), "a new entity keeps the given " + n, pc=ok)
        same(R, e, "entity:add:rotation", P("rotation"), qaxis(qfrom(en.get("rotation"))), "a new entity has the given rotation", pc=ok)
        same(R, e, "entity:add:total", P("last_total_mass"), en.get("own_mass"), "without colliders the total mass is the own mass", pc=ok)
        same(R, e, "entity:add:inertia", P("last_prepped_moment_of_inertia"), mk("zeros", (), "mat"), "without colliders there is no moment of inertia", pc=ok)
        R.check(restrict(P("colliders"), ok).op == "emptyset", "entity:add:colliders", "a new entity already has colliders", "a new entity has no colliders")
        R.check(restrict(P("asleep"), ok) is FALSE, "entity:add:asleep", "a new entity is not awake", "a new entity is awake")
    k = t.sym("h")
    e, s, ret, f = runapi("update_entity", [M.selfref(), k, en.v], St({}, 1))
    ok = s.pc = ok_of(M, f, s, ret)
    e, s, r, _ = runapi("get_entity", [M.selfref(), k], s)
    sys0 = init_root(SELF)
    got = some(r, ok, R, "entity:still", "an entity cannot be read after a successful update")
    if got is not None:
        for n in ("velocity", "angular_velocity", "own_mass"):
            same(R, e, "entity:update:" + n, P(n), en.get(n), "update_entity stores the given " + n, pc=ok)
        same(R, e, "entity:update:rotation", P("rotation"), qaxis(qfrom(en.get("rotation"))), "update_entity stores the given rotation", pc=ok)
        cs = M.efield(e, sys0, k, "colliders")
        R.check(restrict(M.efield(e, M.system(s), k, "colliders"), ok) is cs, "entity:update:colliders", "update_entity changes which colliders are attached", "update_entity leaves the attached colliders alone")
    # getters read the entity's own state
    e, s, r, _ = runapi("get_entity", [M.selfref(), k], St({}, 1))
    live = t.band(M.alive(e, sys0, "ent", k), s.pc)
    got = some(r, live, R, "entity:get", "get_entity does not find a live entity")
    if got is not None:
        o = lambda *n: M.efield(e, sys0, k, *n)
        for n, w in (("position", o("orientation", "position")), ("velocity", o("velocity")), ("angular_velocity", o("angular_velocity")), ("own_mass", o("own_mass")),
                     ("last_total_mass", o("total_mass")), ("last_prepped_moment_of_inertia", o("prepped_moment_of_inertia")), ("asleep", o("asleep")), ("last_orientation", o("orientation"))):
            R.check(restrict(P(n), live) is w, "entity:get:" + n, "get_entity reports %s as something else than its current value" % n, "get_entity reports the current %s" % n)
        same(R, e, "entity:get:rotation", P("rotation"), qaxis(o("orientation", "rotation")), "get_entity reports the current rotation", pc=live)
        R.check(same_set(e, restrict(P("colliders"), live), o("colliders")), "entity:get:colliders", "get_entity reports other colliders than those attached", "get_entity reports the attached colliders")
    # ---- colliders
    n = 0
    for vi, vn, tid in M.wrapper_variants():
        kind = M.d.types[tid]["path"].split("::")[-1]
        o = Obj(M, tid, "src" + vn)
        for op in ("add", "update"):
            if op == "add":
                e, s, ret, f = runapi("add_collider", [M.selfref(), M.wrap(vi, o.v)], St({}, 1))
                ok = s.pc = ok_of(M, f, s, ret)
                c = payload(ret, 0)
                link = NONE
            else:
                c = t.sym("c")
                e, s, ret, f = runapi("update_collider", [M.selfref(), c, M.wrap(vi, o.v)], St({}, 1))
                ok = s.pc = ok_of(M, f, s, ret)
                link = restrict(M.collider_link(e, sys0, c), ok)
            e, s, r, _ = runapi("get_collider", [M.selfref(), c], s)
            tag = "%s:%s" % (kind, op)
            w = some(r, ok, R, tag + ":found", "a %s cannot be read after %s_collider" % (kind, op))
            if w is None:
                continue
            if not (w.op == "agg" and t.variant_of(w) == vi):
                R.check(False, tag + ":kind", "a %s is read back as another kind of collider" % kind)
                continue
            got = w.args[0]
            n += 1
            for fn in o.names:
                g = restrict(proj(e, M, tid, got, fn), ok)
                if fn == "entity":
                    R.check(g is link, tag + ":entity", "%s_collider changes which entity a %s is attached to" % (op, kind), "%s_collider leaves the attachment of a %s alone" % (op, kind))
                    continue
                if kind == "AlignedBoxCollider" and fn in ("min_corner", "max_corner"):
                    for i in range(3):
                        a, b = (mk("fld", (o.get(c2),), i) for c2 in ("min_corner", "max_corner"))
                        minmax(R, e, "%s:%s:%d" % (tag, fn, i), e.project(g, ("f", i)), a, b, fn == "min_corner", ok, "%s_collider keeps the %s of a box" % (op, "smaller" if fn == "min_corner" else "larger") + " coordinate %d" % i)
                    continue
                x = o.get(fn)
                want = stored(M, kind, fn, o)
                if alg.typekind(M.d.types, dict((a, b) for a, b, _ in fields(M, tid))[fn]):
                    same(R, e, "%s:%s" % (tag, fn), g, want, "%s_collider stores the %s of a %s" % (op, fn, kind), pc=ok)
                else:
                    R.check(g is want, "%s:%s" % (tag, fn), "%s_collider does not store the %s of a %s" % (op, fn, kind), "%s_collider stores the %s of a %s" % (op, fn, kind))
    R.floor("collider_round_trips", n, 10)


def minmax(R, e, key, got, a, b, low, pc, what):
    """got is min(a,b) (or max) wherever a and b are not NaN"""
    import order
    lt, gt = t.tobdd(t.flt(a, b)), t.tobdd(t.flt(b, a))
    first, second = (a, b) if low else (b, a)
    same(R, e, key, got, first, what, pc=t.band(pc, lt))
    same(R, e, key, got, second, what, pc=t.band(pc, gt))


def same_set(e, x, y):
    """x is the set y, or a copy of it made element by element"""
    if x is y:
        return True
    if x.op != "mu" or x not in e.mu or "loop" not in e.mu[x]:
        return False
    lp = Loop(e, e.mu[x]["loop"])
    el = walks(e, lp, y, "set")
    return el is not None and lp.init(x).op == "emptyset" and lp.nxt(x) is mk("sins", (x, el))


def some(r, ok, R, key, msg):
    r = restrict(r, ok)
    if r.op == "agg" and t.variant_of(r) == 1:
        R.check(True, key, msg)
        return r.args[0]
    R.check(False, key, msg)
    return None
