"""Links between entities and colliders are symmetric and never dangle; nothing refers to a removed entity."""
from world import *


def run(M, R):
    R.expl = ("the link invariant is shown to be inductive: for each public operation, the state afterwards at a generic entity, collider and pair of neighbours is computed, and every state before that satisfies the invariant (instances at the handles involved) and "
              "violates it afterwards is refuted by condition algebra with congruence of handles")
    n = 0
    for f in M.public_api():
        name = f["name"]
        if f["argc"] < 1 or M.d.types[f["locals"][1][0]]["k"] != "ref" or name == "step":
            continue
        n += 1
        e = M.engine()
        st = St({}, 1)
        args = e.default_args(f, st)
        args[0] = M.selfref()
        s, ret = M.run(e, f, args, st)
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        W = World(M, e, s)
        for u in e.unknown:
            R.check(False, name + ":unmodelled:" + u, "%s calls %s, whose effect is not known" % (name, u))
        new = [y for y in t.S.all if y.op == "newh"]
        ents = [t.sym("any_entity")]
        cols = [t.sym("any_collider")]
        for y in new:
            if prims.live(e, W.LE1, y):
                ents.append(y)
            if prims.live(e, W.LC1, y):
                cols.append(y)
        invariant(M, R, W, name, ents, cols)
        if name == "link_collider":
            effect(M, R, W, s, ret, args)
    new_system(M, R)
    R.floor("operations", n, 11)


def invariant(M, R, W, name, ents, cols):
    e = W.e
    pc = W.pc
    m = t.sym("any_neighbor")
    for c in cols:
        tag = name + (":new" if c.op == "newh" else "")
        l = restrict(W.link1(c), pc)
        x = W.pay(l)
        hyp = t.band(pc, t.band(W.clive1(c), W.is1(l)))
        if x is not UNINIT and hyp:
            bad = t.band(hyp, t.bnot(W.elive1(x)))
            d = W.infeasible(bad)
            R.check(d is None, tag + ":link-live", "after %s a collider can be linked to an entity that does not exist%s" % (name, case(d)), "after %s colliders link to live entities only" % name)
            d = W.infeasible(t.band(hyp, t.bnot(prims.contains(e, W.ent1(x, W.COLL), c))))
            R.check(d is None, tag + ":link-listed", "after %s a collider can be linked to an entity that does not list it%s" % (name, case(d)), "after %s a linked collider is in its entity's set" % name)
        for h in ents:
            t2 = tag + (":new" if h.op == "newh" else "")
            hyp = t.band(pc, t.band(W.elive1(h), prims.contains(e, W.ent1(h, W.COLL), c)))
            d = W.infeasible(t.band(hyp, t.bnot(W.clive1(c))))
            R.check(d is None, t2 + ":listed-live", "after %s an entity can list a collider that does not exist%s" % (name, case(d)), "after %s entities list live colliders only" % name)
            bad = t.bnot(t.band(W.is1(l), e.keyeq(x, h) if x is not UNINIT else 0))
            d = W.infeasible(t.band(hyp, bad))
            R.check(d is None, t2 + ":listed-linked", "after %s an entity can list a collider that is not linked to it%s" % (name, case(d)), "after %s a listed collider links back" % name)
    for h in ents:
        t2 = name + (":new" if h.op == "newh" else "")
        hyp = t.band(pc, t.band(W.elive1(h), prims.contains(e, W.ent1(h, W.NEI), m)))
        d = W.infeasible(t.band(hyp, t.bnot(W.elive1(m))))
        R.check(d is None, t2 + ":neighbor", "after %s an entity can have a neighbor that does not exist%s" % (name, case(d)), "after %s neighbors are live entities" % name)


def effect(M, R, W, s, ret, args):
    """link_collider(c, h) succeeds exactly when both are live, and then c is linked to h"""
    e = W.e
    c, oh = args[1], args[2]
    some, h = W.is1(oh), W.pay(oh)
    ok = t.band(W.pc, t.bnot(W.canon.b(fail_cond(None, ret, "result"))))
    want = t.band(W.clive0(c), t.bor(t.bnot(some), t.band(some, W.elive0(h))))
    bad = t.bor(t.band(ok, t.bnot(want)), t.band(t.band(want, W.pc), t.bnot(ok)))
    d = W.infeasible(bad)
    R.check(d is None, "link_collider:success", "link_collider does not succeed exactly when collider and entity exist%s" % case(d), "link_collider succeeds exactly when both exist")
    l = restrict(W.link1(c), ok)
    d = W.infeasible(t.band(ok, t.band(some, t.bnot(t.band(W.is1(l), e.keyeq(W.pay(l), h) if W.pay(l) is not UNINIT else 0)))))
    R.check(d is None, "link_collider:links", "after link_collider the collider is not linked to the entity given%s" % case(d), "link_collider links to the entity given")
    d = W.infeasible(t.band(ok, t.band(t.bnot(some), W.is1(l))))
    R.check(d is None, "link_collider:unlinks", "after link_collider(None) the collider is still linked%s" % case(d), "link_collider(None) unlinks")


def new_system(M, R):
    """a new system is empty"""
    f = M.api("new")
    e = M.engine()
    s, v = e.call_fn(f["id"], [], St({}, 1), ("root", "new"), ("new", "entry"))
    for which in ("ent", "col", "gen"):
        L = e.project(M.arena(e, v, which), prims.AL)
        R.check(L.op == "nolive", "new:" + which, "a new system already contains something", "a new system is empty")


def case(d):
    return "" if d is None else ", e.g. when " + t.showb(d, 3, 1)[:300]
