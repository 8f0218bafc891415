"""Spheres meet meshes where and when they touch."""
from narrow import *


def run(M, R):
    for swap in (False, True):
        mesh(M, R, swap)


def mesh(M, R, swap):
    positive()
    r = S_("r1")
    # places relative to the sphere at the start, movements relative to the mesh
    A0, B0, mv, rel = V("A0"), V("B0"), V("mv"), V("rel")
    P = Pair(M, R, "Sphere", "Mesh", swap=swap, over_a={"radius": r}, at={"A0": A0, "B0": B0, "A1": t.add(A0, t.add(mv, rel)), "B1": t.add(B0, mv)})
    e = P.e
    tag = "sphere-mesh:" + ("second:" if swap else "")
    P.start(tag)
    q = P.s2.get("rotation")
    over = {n: P.b.get(n) for n in ("vertices", "edges", "faces")}
    WV = t.sym("corners")

    def ref(k):
        x = velem(e, over["vertices"], k)
        alg.setkind(x, "v")
        return t.add(B0, rot(q, x))

    def corner(i):
        x = mk("sel", (WV, i), ())
        alg.setkind(x, "v")
        return x
    hook = opaque(e, ref, corner)
    F = Earliest(P, hook)
    Sp = Sphere(r, P.at["A0"], P.at["A1"], mv)
    done = set()
    for i, (lp, E) in enumerate(F.stages):
        src = source(e, lp)
        name = next((n for n, v in over.items() if src and src[0] == "count" and src[1] is vlen(e, v)), None)
        k = tag + (name or "other") + ":"
        R.check(name is not None and lp.init(lp.driver()[0]) is cint(0), k + "all", "the search does not look at all of something in %s" % lp.where(), tag + " all %s are looked at" % name)
        if name is None:
            continue
        done.add(name)
        F.begin(R, k, i)
        c = lp.driver()[0]
        if name == "vertices":
            F.round(R, k, i, *Sp.point(corner(c)))
        elif name == "edges":
            x = velem(e, over["edges"], c)
            p, d = t.add(A0, V("p")), V("d")
            ends = (p, t.add(p, d))
            R.either(*[lambda r, j=j: F.round(r, k, i, *Sp.segment(*ends), name={corner(tupf(e, x, m, 2)): ends[m ^ j] for m in (0, 1)}) for j in (0, 1)])
        elif name == "faces":
            face(R, P, F, Sp, k, i, velem(e, over["faces"], c), corner, A0)
    R.check(done == set(over), tag + "kinds", "not looked at: %s" % ", ".join(sorted(set(over) - done)), tag + " vertices, edges and faces are looked at")


def face(R, P, F, Sp, k, i, idx, corner, A0):
    e = P.e
    lp = F.stages[i][0]
    c0, d1, d2, n = t.add(A0, V("p")), V("d1"), V("d2"), V("n")
    alg.UNIT.add(("t", n.id))
    vx = [corner(velem(e, idx, cint(j))) for j in range(3)]
    nr = mk("cross", (d1, d2))
    off = t.dot(t.sub(A0, c0), n)
    T = overlap(t.sub(t.dot(A0, n), Sp.r), t.add(t.dot(A0, n), Sp.r), t.dot(c0, n), t.dot(c0, n), t.neg(t.dot(Sp.v, n))).meet(UNITTIME())
    inside = t.sym("inside")
    height = lambda tm: t.dot(t.sub(Sp.center(tm), t.add(c0, t.mul(tm, Sp.mv))), n)
    pos = lambda tm: t.sub(Sp.center(tm), t.mul(height(tm), n))

    def inner(W, sub):
        def remembers(l):
            vs = [m for m in l.mus if m not in l.counters() and constant(l.init(m))]
            return any(occurs(a, lambda y: y in vs) for a in t.bsupport(W))
        ls = [l for l in (Loop(e, x) for x in e.loopinfo) if lp.key in l.stack and (remembers(l) or l.driver() is None and any(occurs(a, lambda y: y in l.mus) for a in t.bsupport(W)))]
        if len(ls) != 1:
            R.check(False, k + "inside", "no walk over the edges of a face decides whether it is hit", None)
            return None
        w = ls[0]
        tt = S("tt")

        def anytime(x):
            if x.op == "ite" and kind_(e, x) == "s" and any(z.op == "sym" for _, z in t.leaves(x)) and all(z.op in ("sym", "f") for _, z in t.leaves(x)):
                return tt
            return None
        c, n_ = Walk.rounds_of(w)

        def wrap(x):
            """other ways to say which edge is the next one, in a round (c < n)"""
            if x.op == "iop:Rem" and x.args[0] is t.iadd(c, cint(1)) and x.args[1] is n_:
                return nx
            if x.op == "ieq" and x is t.ieq(t.iadd(c, cint(1)), n_):
                return t.frombdd(t.bnot(t.tobdd(t.ilt(t.iadd(c, cint(1)), n_))))
            if x.op in ("lt", "ieq") and x.attr in ("i", None) and occurs(x, lambda y: y is nx):
                last, rest = Subst(e, {nx: cint(0)}), Subst(e, {nx: t.iadd(c, cint(1))})
                b = t.bvar(x)
                r = t.frombdd(t.bite(t.tobdd(t.ilt(t.iadd(c, cint(1)), n_)), rest.b(b), last.b(b)))
                return Subst(e, {t.ilt(cint(0), n_): t.TRUE})(r)
            if any(x is t.ilt(m, n_) for m in Walk.before(w)):
                return t.TRUE
            if x.op == "batom" and x.attr == "ovfAdd" and x.args == (c, cint(1)):
                return t.FALSE
            return t.FALSE if x is t.ieq(n_, cint(0)) else None
        nx = ite(t.tobdd(t.ilt(t.iadd(c, cint(1)), n_)), t.iadd(c, cint(1)), cint(0))
        at = Pipe(Subst(e, None, 1, wrap), sub, Subst(e, None, 1, anytime))
        at.rest = at.subs[2]
        more = listsource(e, n_) or n_
        R.check(w.init(c) is cint(0) and more is vlen(e, idx), k + "walk", "the walk over the edges of a face leaves some out", "all edges of a face are looked at")
        x = pos(tt)
        edge = lambda j: t.add(corner(velem(e, idx, j)), t.mul(tt, Sp.mv))
        f, g = edge(c), edge(nx)
        side = t.dot(mk("cross", (t.sub(x, f), t.sub(g, f))), n)
        last = [t.dot(mk("cross", (t.sub(x, edge(m)), t.sub(f, edge(m)))), n) for m in Walk.before(w)]
        flip = t.div(height(tt), t.fabs(height(tt)))
        A = Alg(e)
        sides = [A.s(y) for d in [side] + last for z in (d, t.mul(flip, d)) for y in (z, t.neg(z))]

        def isside(y):

            if y.op not in ("dot", "mul", "add", "neg", "div") or kind_(e, y) != "s":
                return False
            try:
                return alg.limited(20000, A.s, y) in sides
            except alg.Budget:
                return False
        K = Walk(e, w, isside, at)
        W = at.rest.b(at.subs[0].b(W))
        res = {True: set(), False: set()}
        for take, both in K.follow():
            res[both].add(take(W))
        ok = R.check(res[True] == {0}, k + "outside", "a face is hit at a place that is not on the same side of all its edges", "no hit where the place is on different sides of two edges of a face")
        ok &= R.check(len(res[False]) == 1, k + "inside", "whether a face is hit depends on which of its edges is looked at first", "hits inside a face do not depend on the edges")
        R.setc("polygon_walk_states", K.states)
        return res[False].pop() if ok else None
    return F.round(R, k, i, T, None, pos, Sp.off(pos), name=dict(zip(vx, (c0, t.add(c0, d1), t.add(c0, d2)))), rename=[(t.div(nr, t.norm(nr)), n)], inner=inner)
