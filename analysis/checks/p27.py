"""Spheres meet boxes where and when they touch."""
from narrow import *


def run(M, R):
    R.expl = ("collide is run symbolically on a sphere and a box, in both orders; ranges of times that equal a reference range (contact with the box along one axis, with a face, with any face) are given a "
              "name where a function returns them; the edges and corners looked at by the loops are shown to be the 12 and 8 of the box by inserting the numbers of the rounds into what they pick, "
              "each round then is compared with the reference for any segment or point")
    for swap in (False, True):
        box(M, R, swap)


class Names:
    """ranges of times known by name: a function that returns one of these (under the conditions it is called) returns its name"""

    def __init__(self, M, setup):
        self.M, self.setup = M, setup
        self.refs = None
        self.facts = 1
        self.hits = set()
        self.tids = {i for i, ty in enumerate(M.d.types) if ty.get("local") and str(ty.get("path", "")).split("::")[-1] == "Range"}

    def add(self, n, *refs):
        """name a range, computed in any of several ways that come to the same"""
        no, lo, hi = t.bvar(t.sym("no:" + n)), S("lo:" + n), S("hi:" + n)
        self.facts = t.band(self.facts, t.bnot(lt(hi, lo)))
        s = Rng(no, lo, hi)
        self.refs += [(n, ref, s) for ref in refs]
        return s

    def __call__(self, P, e, f, st, r):
        if f["locals"][0][0] not in self.tids or occurs(r, lambda y: y.op == "sqrt"):
            return r
        if weight(r) > 640:
            return r
        if self.refs is None:
            self.refs = []
            self.pipe, self.C = self.setup(self, P, e)
        g = self.pipe(r)
        if g.op != "agg" or all(x.op != "ite" for x in g.args):
            return r
        C = self.C
        empty = C.b(t.bor(*[t.tobdd(t.mapite(x, lambda y: t.fclass(y, "isnan"))) for x in g.args]))
        for n, ref, s in self.refs:
            none = C.b(ref.empty)
            if order.equivalent(e, empty, none, self.facts) is not None:
                continue
            pc = t.band(self.facts, t.bnot(none))
            if all(differs(e, C(x), C(y), pc) is None for x, y in zip(g.args, (ref.lo, ref.hi))):
                self.hits.add(n)
                return agg(r.attr, [ite(s.empty, t.cflt("nan"), y) for y in (s.lo, s.hi)])
        return r


def weight(x):
    """number of terms and condition nodes in a value"""
    seen, nodes, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        todo.extend(y.args)
        if y.op in ("ite", "cond"):
            bs = [y.attr]
            while bs:
                b = bs.pop()
                if b > 1 and b not in nodes:
                    nodes.add(b)
                    v, lo, hi = t.S.node[b]
                    todo.append(t.S.varterm[v])
                    bs += [lo, hi]
    return len(seen) + len(nodes)


def hull(a, b):
    h = a.hull(b)
    return Rng(t.band(a.empty, b.empty), ite(a.empty, b.lo, ite(b.empty, a.lo, h.lo)), ite(a.empty, b.hi, ite(b.empty, a.hi, h.hi)))


def box(M, R, swap):
    positive()
    tag = "sphere-box:" + ("second:" if swap else "")
    r = S_("r1")
    # in the box's space: the sphere's centre at both ends, the box
    c0, v, L = V("c0"), V("v"), V("L")
    c1 = t.add(c0, v)
    size = [S_("size" + x) for x in "xyz"]
    H = t.add(L, t.agg("vec3", size))
    env = {}

    def setup(N, P, e):
        """names for the times along each axis (with the sphere's centre, with all of it), with the faces across it, with any"""
        C = clean(e, resolver(e))
        ctr = P.a.get("center")
        ends = [(local(P.s2, world(P.s1, ctr)), c0), (local(P.e2, world(P.e1, ctr)), c1)]
        ends += [(t.add(P.b.get("position"), P.b.get(n)), x) for n, x in (("min_corner", L), ("max_corner", H))]
        env["ren"] = Pipe(*[Subst(e, None, 1, renamer(e, ref, sym, ("add",))) for ref, sym in ends])
        co = lambda x, i: C(e.comp(x, i))
        near, far = [], []
        for i in range(3):
            for l, n, w in ((near, "center", num(0.0)), (far, "sphere", r)):
                c = co(c0, i)
                l.append(N.add("%s%d" % (n, i), overlap(co(L, i), co(H, i), t.sub(c, w), t.add(c, w), co(v, i))))
        faces = []
        for i in range(3):
            x, y, z = (far[j] if i == j else near[j] for j in range(3))
            faces.append(N.add("face%d" % i, x.meet(y).meet(z), y.meet(z).meet(x), z.meet(x).meet(y)))
        x, y, z = faces
        env["hit"] = N.add("hit", N.add("faces", hull(hull(x, y), z), hull(hull(y, z), x), hull(hull(z, x), y)).meet(UNITTIME()))
        return Pipe(env["ren"], C), C
    N = Names(M, setup)
    P = Pair(M, R, "Sphere", "AlignedBox", swap=swap, over_a={"radius": r}, peel=4, onret=N)
    e = P.e
    P.start(tag)
    R.check(N.refs is not None, tag + "times", "no times of contact with the faces of a box are computed", None)
    if N.refs is None:
        return
    Q = Earliest(P)
    Q.C = Pipe(env["ren"], N.C)
    # the faces
    R.check("hit" in N.hits, tag + "faces:times", "the times at which the sphere touches a face of the box were not found among what is computed (found: %s)" % ", ".join(sorted(N.hits)),
            tag + " the times of contact with the faces: within the box along two axes, touching along the third; the earliest of the three, within the step")
    if not {"face0", "face1", "face2"} <= N.hits:
        return
    h, tm, p, n = P.parts(Q.C(Q.first))
    h = N.C.b(h)
    P.matches(tag + "faces:", h, tm, p, n, env["hit"], None, None, None)
    facing(R, P, N, tag + "faces:", h, tm, p, n, c0, v, r, L, size)
    # edges and corners
    Sp = Sphere(r, c0, t.add(c0, v), t.agg("vec3", [num(0.0)] * 3))
    done = set()
    for i, (lp, E) in enumerate(Q.stages):
        name, picks = which(e, Q, lp, E, L, size)
        R.check(name is not None, tag + "parts", "%s does not look at the 12 edges or the 8 corners of the box, each once: %s" % (lp.where(), picks), "%s all %s of the box are looked at" % (tag, name))
        if name is None:
            continue
        done.add(name)
        k = tag + name + ":"
        Q.begin(R, k, i)
        p0, d = t.add(c0, V("p")), V("d")
        ends = (p0, t.add(p0, d))
        pts, steps = picks
        if name == "corners":
            Q.round(R, k, i, *Sp.point(p0), name={x: p0 for x in pts[0]})
        else:
            R.either(*[lambda r, j=j: Q.round(r, k, i, *Sp.segment(*ends), name={**{x: ends[m ^ j] for m in (0, 1) for x in pts[m]}, **{x: t.neg(d) if m == j else d for x, m in steps.items()}}) for j in (1, 0)])
    R.check(done == {"edges", "corners"}, tag + "kinds", "not looked at: %s" % ", ".join(sorted({"edges", "corners"} - done)), tag + " edges and corners are looked at")
    out(R, P, N, Q, tag, swap)


def facing(R, P, N, k, h, tm, p, n, c0, v, r, L, size):
    """a face is hit below the sphere's centre, and it is the one that the centre is nearest to, measured by the size of the box"""
    e, C = P.e, N.C
    times = [x for _, x in t.leaves(tm, h)]
    if len(times) != 1:
        R.check(False, k + "normal", "the time of contact with the faces was not understood", None)
        return
    c = t.add(c0, t.mul(times[0], v))
    h = t.band(h, N.facts)
    d = differs(e, p, t.add(c, t.mul(r, n)), h)
    R.check(d is None, k + "position", "%s the position is not the sphere's radius along the normal from its centre: %s" % (k, d), k + " the position is on the sphere, along the normal")
    half = t.agg("vec3", [t.mul(num(0.5), s) for s in size])
    away = [t.div(C(e.comp(t.sub(t.add(L, half), c), i)), size[i]) for i in range(3)]

    def sign(x):
        if x.op == "signum":
            return ite(lt(x.args[0], num(0.0)), num(-1.0), num(1.0))
        return None
    sub = Twice(Subst(e, None, h, sign))
    ls = [t.leaves(sub(e.comp(n, i)), h) for i in range(3)]
    bad, cases = None, 0
    for i in range(3):
        for b, x in ls[i]:
            if x is num(0.0):
                continue
            cases += 1
            if x not in (num(1.0), num(-1.0)):
                bad = bad or "it is %s along an axis" % t.show(x, 3)
                continue
            # the other two are zero
            for j in range(3):
                if j == i:
                    continue
                for q, y in ls[j]:
                    if y is not num(0.0) and feasible(e, t.band(b, q)):
                        bad = bad or "it is not along one axis"
                far = lt(t.fabs(away[i]), t.fabs(away[j]))
                if feasible(e, t.band(b, far)):
                    bad = bad or "it is along axis %d although the centre is nearer to the faces across axis %d" % (i, j)
            wrong = lt(num(0.0), away[i]) if x is num(-1.0) else lt(away[i], num(0.0))
            if feasible(e, t.band(b, wrong)):
                bad = bad or "it points away from the box"
    zero = h
    for l in ls:
        z = 0
        for b, x in l:
            if x is num(0.0):
                z = t.bor(z, b)
        zero = t.band(zero, z)
    if feasible(e, zero):
        bad = bad or "it is zero"
    R.count("faces_by_case", cases)
    R.check(bad is None, k + "normal", "%s the normal is not that of the face the sphere's centre is nearest to: %s" % (k, bad), k + " the normal points at the face the centre is nearest to")


def feasible(e, b):
    A = Alg(e)
    b = A.canon(b)
    b = t.band(b, order.linear(t.bsupport(b)))
    return b != 0


def which(e, Q, lp, E, L, size):
    """("edges" or "corners", what the loop picks of them), or (None, why)"""
    d = lp.driver()
    if d is None or d[1] != "count" or lp.init(d[0]) is not cint(0) or d[2].op != "i":
        return None, "how often it is run was not understood"
    k, n = d[0], int(d[2].attr)
    if n not in (8, 12):
        return None, "%d rounds" % n
    A = Alg(e)
    corners = {}
    coords = lambda x: tuple(alg.freeze(A.s(Q.C(e.comp(x, j)))) for j in range(3))
    for i in range(8):
        x = t.add(L, t.agg("vec3", [size[j] if i >> j & 1 else num(0.0) for j in range(3)]))
        corners[coords(x)] = i
    found = {}
    seen = set()

    def go(x):
        """smallest vectors that depend on the round"""
        if x in seen:
            return
        seen.add(x)
        if x.op in ("ite", "cond"):
            for a in t.bsupport(x.attr):
                go(a)
        for y in x.args:
            go(y)
        if kind_(e, x) == "v" and occurs(x, lambda y: y is k) and not any(occurs(x, lambda y, z=z: y is z) for z in found) and x.op in ("sel", "agg", "ite", "fld"):
            found[x] = None
    go(Q.C(lp.nxt(E)))
    lists, other = {}, {}
    for x in found:
        l = [coords(Q.C(Subst(e, {k: cint(i)})(x))) for i in range(n)]
        if all(y in corners for y in l):
            lists.setdefault(tuple(corners[y] for y in l), []).append(x)
        else:
            other[x] = l
    diff = lambda a, b: [tuple(alg.freeze(alg.sadd(alg.thaw(p), alg.thaw(q), F(-1))) for p, q in zip(names[i], names[j])) for i, j in zip(a, b)]
    names = {i: y for y, i in corners.items()}
    steps = {}
    for x, l in other.items():
        ok = [(a, b) for a in lists for b in lists if a != b and diff(a, b) == l]
        if not ok:
            return None, "what it looks at is no corner of the box"
        steps[x] = ok[0]
    if len(lists) == 1 and sorted(*lists) == list(range(8)):
        return "corners", [list(lists.values()), {}]
    if len(lists) == 2:
        pairs = {frozenset(x) for x in zip(*lists)}
        if n == 12 and len(pairs) == 12 and all(len(x) == 2 and bin(min(x) ^ max(x)).count("1") == 1 for x in pairs):
            ks = list(lists)
            return "edges", [list(lists.values()), {x: ks.index(a) for x, (a, b) in steps.items()}]
    return None, "it looks at other points or pairs of them"


def out(R, P, N, Q, tag, swap):
    """the collision kept is taken from the box's space to the world, at its time"""
    e = P.e
    C = clean(e, resolver(e))
    h, tm, p, n = P.parts()
    lp, E = Q.stages[-1]
    kh, kt, kp, kn = P.parts(E)
    d = order.equivalent(e, C.b(h), kh)
    R.check(d is None, tag + "kept", "%s what is reported is not whether a collision was found" % tag, tag + " a collision is reported exactly when one was found")
    d = differs(e, C(tm), kt, kh)
    R.check(d is None, tag + "time", "%s the time is not that of the collision found: %s" % (tag, d), tag + " the time is that of the collision found")
    x, q = (lambda f, o: o.get(f)), qaxis
    pos = along(P.s2.get("position"), P.e2.get("position"), kt)
    best = []
    for rt in turned(P.s2.get("rotation"), P.e2.get("rotation"), kt):
        wp = t.add(pos, rot(rt, t.add(kp, P.s2.get("internal_origin_offset"))))
        wn = rot(rt, kn)
        best.append((differs(e, C(p), wp, kh), differs(e, C(n), t.neg(wn) if swap else wn, kh)))
    for i, w in ((0, "position"), (1, "normal")):
        R.check(any(b[i] is None for b in best), tag + w, "%s the %s is not that found, taken to the world at the time of the collision: %s" % (tag, w, best[0][i]), "%s the %s is taken to the world as the box is at the time of the collision" % (tag, w))
