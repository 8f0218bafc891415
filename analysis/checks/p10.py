"""Every operation changes only what it names (frame)."""
from world import *
from step import Step

MASS = {("orientation", "position"), ("orientation", "internal_origin_offset"), ("total_mass",), ("prepped_moment_of_inertia",)}
SLEEP = {("asleep",), ("neighbors",), ("falling_asleep",), ("falling_asleep_time",)}
COLL = {("colliders",)}


def leaves_differ(W, x, x0, allowed, pc):
    """condition under which x may be something else than x0, outside `allowed`"""
    bad = 0
    for c, l in t.leaves(x, pc):
        if l is x0:
            continue
        bad = t.bor(bad, c)
    bad = t.band(t.band(bad, pc), t.bnot(allowed))
    if bad == 0:
        return None
    return W.infeasible(bad)


def optpay(W, v):
    """(condition Some, handle) of an option argument"""
    return W.is1(v), W.pay(v)


def spec(W, name, args, a):
    """{field: condition under which entity a's field may change}, whole-entity default under key None"""
    e = W.e
    eq = lambda h: e.keyeq(a, h)
    linked = lambda c: t.band(W.is1(W.link0(c)), eq(W.pay(W.link0(c))))
    if name == "remove_entity":
        return {None: eq(args[1]), **{f: 1 for f in SLEEP}}
    if name == "update_entity":
        return {None: eq(args[1]), **{f: 1 for f in SLEEP}, ("colliders",): 0}
    if name == "remove_collider":
        return {None: 0, **{f: linked(args[1]) for f in MASS | COLL}}
    if name == "update_collider":
        return {None: 0, **{f: linked(args[1]) for f in MASS}}
    if name == "link_collider":
        s, h = optpay(W, args[2])
        c = t.bor(linked(args[1]), t.band(s, eq(h)))
        return {None: 0, **{f: c for f in MASS | COLL}}
    return {None: 0}


READERS = ("get_entity", "get_collider")


def run(M, R):
    R.expl = ("the state after each public operation is computed at one generic entity and one generic collider; any field that can differ from the state before, outside the objects the operation names, is reported")
    paths = leaf_paths(M, M.ient)
    n = 0
    for f in M.public_api():
        name = f["name"]
        if f["argc"] < 1 or M.d.types[f["locals"][1][0]]["k"] != "ref":
            continue
        n += 1
        if name == "step":
            step(M, R, paths)
            continue
        e = M.engine()
        st = St({}, 1)
        args = e.default_args(f, st)
        args[0] = M.selfref()
        s, ret = M.run(e, f, args, st)
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        known_calls(R, e, name, name)
        W = World(M, e, s)
        a, c = t.sym("any_entity"), t.sym("any_collider")
        if name in READERS or not M.d.types[f["locals"][1][0]].get("mut"):
            R.check(restrict(W.s1, s.pc) is W.s0, name + ":reads", "%s changes the system" % name, "%s changes nothing" % name)
        al = spec(W, name, args, a)
        pc = t.band(s.pc, 1)
        pc = W.pc
        for fn, p in paths:
            ok = al.get(fn, al[None])
            c0 = t.band(t.band(pc, W.elive0(a)), t.bnot(ok))
            x = restrict(W.canon(W.at(W.E1, a, p, c0)), c0)
            x0 = e.mksel(W.E0, a, p)
            d = leaves_differ(W, x, x0, ok, c0)
            R.check(d is None, "%s:entity:%s" % (name, ".".join(fn)), "%s can change %s of an entity it does not concern%s" % (name, ".".join(fn), case(d)), "%s leaves %s of other entities alone" % (name, ".".join(fn)))
        # colliders
        named = args[1] if name in ("remove_collider", "update_collider", "link_collider") else None
        me = e.keyeq(c, named) if named is not None else 0
        cpc = t.band(t.band(pc, t.bnot(me)), W.clive0(c))
        x = restrict(W.canon(W.at(W.C1, c, (), cpc)), cpc)
        d = leaves_differ(W, x, e.mksel(W.C0, c, ()), 0, cpc)
        R.check(d is None, name + ":collider", "%s can change a collider it does not concern%s" % (name, case(d)), "%s leaves other colliders alone" % name)
        if name == "link_collider":
            base = mk("sel", (W.C0, named), ())
            for T, lp in sorted(W.lp.items()):
                k = t.band(pc, prims.dyncond(e, base, T))
                for fd in M.d.types[M.ctraits[T]["tid"]]["variants"][0]["f"]:
                    p = (("dyn", T), M.d.fproj(M.ctraits[T]["tid"], fd["n"]))
                    if [z[:2] for z in p] == [z[:2] for z in lp]:
                        continue
                    x = restrict(W.at(W.C1, named, p, k), k)
                    d = leaves_differ(W, x, e.mksel(W.C0, named, p), 0, k)
                    R.check(d is None, "link_collider:%s:%s" % (T.split("::")[-1], fd["n"]), "link_collider can change %s of a collider%s" % (fd["n"], case(d)))
        # liveness of everything else
        for what, l0, l1, k in (("entity", W.elive0(a), W.elive1(a), a), ("collider", W.clive0(c), W.clive1(c), c)):
            gone = t.band(pc, t.band(l0, t.bnot(l1)))
            came = t.band(pc, t.band(l1, t.bnot(l0)))
            ok = 0
            if name == "remove_entity":
                ok = e.keyeq(a, args[1]) if k is a else t.band(W.is1(W.link0(c)), e.keyeq(W.pay(W.link0(c)), args[1]))
            if name == "remove_collider" and k is c:
                ok = me
            g = W.infeasible(t.band(gone, t.bnot(ok)))
            R.check(g is None, "%s:%s:gone" % (name, what), "%s can remove a %s it does not concern%s" % (name, what, case(g)), "%s removes no other %s" % (name, what))
            g = W.infeasible(came)
            R.check(g is None, "%s:%s:came" % (name, what), "%s can bring an old %s handle back to life%s" % (name, what, case(g)))
        # the rest of the system
        for fd in M.d.fields(M.sys):
            fn = fd["n"]
            if fn in ("entities", "colliders", "debug"):
                continue
            if fn == "unary_force_generators" and name in ("add_unary_force_generator", "remove_unary_force_generator"):
                gens(M, R, W, e, s, name, args)
                continue
            p = M.d.fproj(M.sys, fn)
            R.check(restrict(e.project(W.s1, p), s.pc) is e.project(W.s0, p), "%s:system:%s" % (name, fn), "%s changes %s of the system" % (name, fn), "%s leaves %s of the system alone" % (name, fn))
    R.floor("operations", n, 12)


def case(d):
    return "" if d is None else ", e.g. when " + t.showb(d, 3, 1)[:250]


def gens(M, R, W, e, s, name, args):
    g0, g1 = (M.arena(e, x, "gen") for x in (W.s0, W.s1))
    k = t.sym("any_generator")
    L0, L1 = e.project(g0, prims.AL), e.project(g1, prims.AL)
    m0, m1 = e.project(g0, prims.AM), e.project(g1, prims.AM)
    me = e.keyeq(k, args[1]) if name.startswith("remove") else 0
    l0, l1 = prims.live(e, L0, k), prims.live(e, L1, k)
    R.check(t.band(s.pc, t.band(t.bor(t.band(l0, t.bnot(l1)), t.band(l1, t.bnot(l0))), t.bnot(me))) == 0, name + ":generators", "%s adds or removes another force generator" % name)
    x = e.mksel(m1, k, (), St({}, s.pc))
    R.check(restrict(x, s.pc) is e.mksel(m0, k, ()), name + ":generator", "%s changes another force generator" % name, "%s leaves the other force generators alone" % name)


def step(M, R, paths):
    """a step moves entities and changes how they sleep; everything else stays"""
    st = Step(M)
    e, s = st.e, st.s
    W = World(M, e, s, member=False)
    a = t.sym("any_entity")
    moves = {("orientation", "position"), ("orientation", "rotation"), ("velocity",), ("angular_velocity",)} | SLEEP
    for fn, p in paths:
        if fn in moves:
            continue
        x = restrict(W.ent1(a, p), W.pc)
        R.check(x is e.mksel(W.E0, a, p), "step:entity:" + ".".join(fn), "step can change %s of an entity" % ".".join(fn), "step leaves %s of every entity alone" % ".".join(fn))
    R.check(W.elive1(a) == W.elive0(a), "step:entity:live", "step can add or remove an entity")
    for which, fn in (("col", "colliders"),):
        x0, x1 = M.arena(e, W.s0, which), M.arena(e, W.s1, which)
        R.check(restrict(x1, s.pc) is x0, "step:" + fn, "step can change the colliders", "step leaves every collider alone")
    L0, L1 = (e.project(M.arena(e, x, "gen"), prims.AL) for x in (W.s0, W.s1))
    R.check(restrict(L1, s.pc) is L0, "step:generators", "step can add or remove a force generator", "step neither adds nor removes force generators")
    for fd in M.d.fields(M.sys):
        fn = fd["n"]
        if fn in ("entities", "colliders", "unary_force_generators", "debug", "collision_records"):
            continue
        p = M.d.fproj(M.sys, fn)
        R.check(restrict(e.project(W.s1, p), s.pc) is e.project(W.s0, p), "step:system:" + fn, "step changes the setting " + fn, "step leaves the setting %s alone" % fn)


def known_calls(R, e, key, what):
    for u in e.unknown:
        R.check(False, key + ":unmodelled:" + u, "%s calls %s, whose effect is not known" % (what, u))
