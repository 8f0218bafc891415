"""Meshes meet meshes where a corner of one first passes through a face of the other."""
from narrow import *


def run(M, R):
    R.expl = ("collide is run symbolically on two meshes; for each of the two ways round, the loops that look at the corners of one mesh and the faces of the other are shown to look at all of "
              "them, and one round, for any corner and any face, is compared with the reference: a point moving straight past a polygon that stands still")
    positive()
    P = Pair(M, R, "Mesh", "Mesh", peel=2)
    e, tag = P.e, "mesh-mesh:"
    P.start(tag)
    h = P.clean.b(P.hitcond())
    tops = sorted({a.args[0] for a in t.bsupport(h) if a.op == "is" and a.args[0].op == "mu"}, key=lambda m: m.id)
    R.check(len(tops) == 2, tag + "ways", "expected one collision kept for each of the two ways round, found %d" % len(tops), "corners of the first against faces of the second, and the other way round")
    if len(tops) != 2:
        return
    ways = {}
    for E in tops:
        w = Way(P, R, E, tag)
        if not w.ok:
            return
        ways[w.name] = w
    R.check(len(ways) == 2, tag + "ways", "both searches look at the corners of the same mesh", None)
    if len(ways) < 2:
        return
    for w in ways.values():
        w.round()
    result(P, R, ways["first"], ways["second"], tag)


class Way(Earliest):
    """the corners of one mesh (moving) against the faces of the other (standing still)"""

    def __init__(self, P, R, E, tag):
        self.P, self.R, self.E = P, R, E
        e = self.e = P.e
        self.ok = False
        # loops, from the outermost
        self.levels = [(Loop(e, e.mu[E]["loop"]), E)]
        while True:
            lp, m = self.levels[-1]
            x = lp.nxt(m)
            if x.op != "mu" or x is m:
                break
            l = Loop(e, e.mu[x]["loop"])
            if l.init(x) is not m or len(self.levels) > 3:
                break
            self.levels.append((l, x))
        first = self.levels[0][0].init(E)
        R.check(t.variant_of(first) == 0 if first.op == "agg" else False, tag + "none", "a collision is known before any corner was looked at (%s)" % self.levels[0][0].where(), tag + " no collision at first")
        walked = {}
        for lp, _ in self.levels:
            d = lp.driver()
            if d is None or d[1] != "count" or lp.init(d[0]) is not cint(0):
                R.check(False, tag + "all", "not all corners or faces are looked at in %s" % lp.where(), None)
                return
            n = listsource(e, d[2]) or d[2]
            for o, n_ in ((P.a, "A"), (P.b, "B")):
                for f in ("vertices", "faces"):
                    if n is vlen(e, o.get(f)):
                        walked[f] = (o, d[0], d[2])
        if set(walked) != {"vertices", "faces"} or len(self.levels) != 2 or walked["vertices"][0] is walked["faces"][0]:
            R.check(False, tag + "all", "the corners of one mesh and the faces of the other are not all looked at in %s" % self.levels[0][0].where(), None)
            return
        R.check(True, tag + "all", "", tag + " all corners and all faces are looked at")
        self.ok = True
        self.O, self.cO, self.nO = walked["vertices"]
        self.F, self.cF, _ = walked["faces"]
        self.name = "first" if self.O is P.a else "second"
        self.tag = tag + self.name + ":"
        self.so, self.eo, self.sf, self.ef = (P.s1, P.e1, P.s2, P.e2) if self.name == "first" else (P.s2, P.e2, P.s1, P.e1)
        self.face = velem(e, self.F.get("faces"), self.cF)
        v = velem(e, self.O.get("vertices"), self.cO)
        alg.setkind(v, "v")
        self.v = v
        self.p0, self.p1, self.n, self.X = V("p0"), V("p1"), V("n"), V("x")
        self.T = S("T")
        alg.UNIT.add(("t", self.n.id))
        alg.setkind(self.T, "s")
        self.poly = None
        self.findloops()
        self.C = clean(e, self.hook())
        self.names = self.pointnames(v)
        self.base = Pipe(self.C, *self.names)

    def pointnames(self, v):
        """where a corner starts and ends, seen from the mesh with the faces"""
        p = t.add(self.O.get("position"), v)
        out = []
        for a, b, sym in ((self.so, self.sf, self.p0), (self.eo, self.ef, self.p1)):
            out.append(Subst(self.e, None, 1, renamer(self.e, local(b, world(a, p)), sym, ("add",))))
        return out

    def findloops(self):
        """loops over the corners of a face"""
        e = self.e
        inner = self.levels[-1][0]
        self.loops = {}
        for k in e.loopinfo:
            l = Loop(e, k)
            if inner.key not in l.stack:
                continue
            try:
                c, n = Walk.rounds_of(l)
            except AnalysisError:
                continue
            if (listsource(e, n) or n) is vlen(e, self.face) and l.init(c) is cint(0):
                self.loops[k] = (l, c, n)

    def hook(self):
        """corners of the face get names"""
        e = self.e
        CR = t.sym("corners")
        vs = self.F.get("vertices")

        def ref(k):
            x = velem(e, vs, velem(e, self.face, k))
            alg.setkind(x, "v")
            return t.add(self.F.get("position"), x)

        def name(k):
            x = mk("sel", (CR, self.place(k)), ())
            alg.setkind(x, "v")
            return x
        self.corner = name
        return opaque(e, ref, name)

    def bound(self, x):
        """a comparison of places that has one outcome in all rounds of a loop over the corners (0 <= c < n)"""
        if x.op == "batom" and str(x.attr).startswith("ovf"):
            return t.FALSE
        if x.op == "ieq":
            if self.bound(t.ilt(cint(0), x.args[0])) is t.TRUE or self.bound(t.ilt(cint(0), t.imul(cint(-1), x.args[0]))) is t.TRUE:
                return t.FALSE
            return None
        if x.op != "lt" or x.attr != "i":
            return None
        k, d = t.lin(x.args[1])
        if any(y.op == "iop:Rem" and k == 0 and d == {y: -1, n: 1} and y.args[1] is n for y in d for _, _, n in self.loops.values()):
            return t.TRUE
        for l, c, n in self.loops.values():
            if set(d) - {c, n} or d.get(c, 0) == -1 and d.get(n, 0) == 1 and k == 0:
                continue
            a, b = d.get(n, 0), d.get(c, 0)
            # with n = c + 1 + s
            co = (a + b, a)
            if min(co) >= 0 and a + k > 0:
                return t.TRUE
            if max(co) <= 0 and a + k <= 0:
                return t.FALSE
        return None

    def nx(self, c):
        return t.sym("next:%d" % c.id)

    def pv(self, c):
        return t.sym("before:%d" % c.id)

    def place(self, k):
        """which corner of the face: the one of a round, the next or the one before (around the face)"""
        if k.op == "i" or k.op == "sym":
            return k
        for l, c, n in self.loops.values():
            if k is c:
                return c
            if any(k is m for m in Walk.before(l)):
                return self.pv(c)
            if not occurs(k, lambda y: y is c):
                continue
            w = around(self.e, k, c, n)
            if w == 1:
                return self.nx(c)
            if w == -1:
                return self.pv(c)
        return k

    # ------------------------------------------------------------ one round
    def round(self):
        e, R, P, tag = self.e, self.R, self.P, self.tag
        lp, E = self.levels[-1]
        tws = [self.twin(l, m) for l, m in self.levels]
        # what the variables that repeat the time are, from loop to loop
        for i, (l, m) in enumerate(self.levels):
            for x in tws[i]:
                out = self.C(Subst(e, tws[i - 1])(l.init(x))) if i else self.C(l.init(x))
                h, tm = self.kept(l.init(m))
                self.same(out, ite(h, tm, INF()), 1, tag + "record", "the time recorded at first is not that of the collision kept")
                if i + 1 < len(self.levels):
                    h, tm = self.kept(l.nxt(m))
                    self.same(self.C(Subst(e, tws[i + 1])(l.nxt(x))), ite(h, tm, INF()), 1, tag + "record", "the time recorded is not that of the collision kept")
        pipe = Pipe(Subst(e, tws[-1]), self.base)
        new = pipe(lp.nxt(E))
        rec = {x: pipe(lp.nxt(x)) for x in tws[-1]}
        W = self.replaced(new, E)
        # the normal of the face
        found, nref = self.normal(W, pipe)
        if found is None:
            return
        d = order.equivalent(e, t.bcof(W, found, 0), 0)
        R.check(d is None, tag + "flat", "a face without a normal is hit when %s" % (t.showb(d, 3)[:200] if d else ""), tag + " faces without a normal are not hit")
        n, p0, p1, T, X = self.n, self.p0, self.p1, self.T, self.X
        c0 = self.corner(cint(0))
        d0, d1 = t.dot(t.sub(p0, c0), n), t.dot(t.sub(p1, c0), n)
        Tref = t.div(d0, t.sub(d0, d1))
        ren = lambda ref, sym, ops: [Subst(e, None, 1, renamer(e, r, s, ops)) for r, s in ((ref, sym), (t.neg(ref), t.neg(sym)))]
        some = {found: t.TRUE, t.ilt(cint(0), self.count): t.TRUE}
        for l, c, m in self.loops.values():
            # after a loop without another way out
            if l.driver():
                some[t.ilt(cint(0), t.iadd(m, t.imul(cint(-1), c)))] = t.FALSE

        def cross(x):
            if x.op == "batom" and x.attr == "isfin" and x.args[0] in (T, t.neg(T)):
                return crosses
            return self.bound(x)
        crosses = t.sym("crosses")
        more = Pipe(Subst(e, some), *ren(nref, n, ("div", "normalize")), *ren(Tref, T, ("div", "neg", "mul")), Subst(e, None, 1, cross), Subst(e, None, 1, renamer(e, along(p0, p1, T), X, ("add",))), self.C)
        self.more = more
        new, rec = more(new), {x: more(y) for x, y in rec.items()}
        W = self.replaced(new, E)
        nh, nt, np_, nn = (Subst(e, None, W)(x) if isinstance(x, t.T) else x for x in P.parts(new))
        R.check(t.bimp(W, nh), tag + "some", "a collision kept is dropped", tag + " a collision once found is replaced only by another")
        for x, y in rec.items():
            h, tm, _, _ = P.parts(new)
            self.same(y, ite(h, tm, INF()), 1, tag + "record", "the time recorded is not that of the collision kept")
        on = [t.tobdd(self.C(t.frombdd(lt(t.fabs(d), EPS())))) for d in (d0, d1)]
        self.inplane(given(e, W, [(b, 1) for b in on]), nt, np_, nn, on, pipe)
        self.through(W, nt, np_, nn, on, d0, d1, crosses, pipe)

    def same(self, got, want, pc, key, what):
        d = None if samecases(self.e, got, self.C(want), pc) else differs(self.e, got, self.C(want), pc)
        return self.R.check(d is None, key, "%s: %s" % (what, d), None)

    def replaced(self, new, E):
        keep = 0
        for c, x in t.leaves(new):
            if x is E:
                keep = t.bor(keep, c)
        return t.bnot(keep)

    def earlier(self, x):
        """conditions under which a collision at time x must, and may, replace the one kept"""
        h, tm = self.kept(self.levels[-1][1])
        return t.bor(t.bnot(h), lt(x, tm)), t.bor(t.bnot(h), t.bnot(lt(tm, x)))

    def normal(self, W, pipe):
        """(atom: a normal was found, the normal): at the first corner where the two sides next to it are not in line"""
        e, R, tag = self.e, self.R, self.tag
        for l, c, n in self.loops.values():
            a = t.ilt(cint(0), t.iadd(n, t.imul(cint(-1), c)))
            sides = [t.sub(self.corner(y), self.corner(c)) for y in (self.pv(c), self.nx(c))]
            cr = mk("cross", tuple(sides))
            if a not in t.bsupport(W) or not occurs(t.frombdd(pipe.b(l.exitcond())), lambda y: y.op == "norm"):
                continue
            self.count = n
            q = self.C.b(pipe.b(t.band(l.exitcond(), t.tobdd(a))))
            fin = [y for y in t.bsupport(q) if y.op == "batom" and y.attr == "isfin"]
            if len(fin) == 1 and differs(e, fin[0].args[0], t.norm(cr)) is None:
                q = t.bcof(q, fin[0], 1) if t.bcof(q, fin[0], 0) == 0 else q
            q = Subst(e, {a: t.TRUE, t.ilt(cint(0), n): t.TRUE}, 1, self.bound).b(given(e, q, [(l.entry, 1)]))
            q = drop(q, lambda y: y.attr == "i" or y.op == "is" or y.op == "batom" and str(y.attr).startswith("ovf"))
            d = order.equivalent(e, q, lt(EPS(), t.norm(cr)))
            R.check(d is None, tag + "normal", "the normal of a face is not taken at the first corner where it is longer than EPSILON: differs when %s" % (t.showb(d, 3)[:200] if d else ""), tag + " the normal is taken at the first corner where the sides are not in line")
            return a, t.div(cr, t.norm(cr))
        R.check(False, tag + "normal", "where the normal of a face comes from was not found (%s)" % self.levels[-1][0].where(), None)
        return None, None

    def through(self, W, nt, np_, nn, on, d0, d1, crosses, pipe):
        """the corner passes through the plane of the face, at a place within the face"""
        e, R, tag = self.e, self.R, self.tag
        T, X, n = self.T, self.X, self.n
        cand = []
        for l, c, m in self.loops.values():
            vs = [x for x in l.mus if x is not c and constant(l.init(x))]
            if l.driver() is None and occurs(t.frombdd(W), lambda y: y in l.mus) and vs:
                cand.append((l, c))
        if len(cand) != 1:
            R.check(False, tag + "inside", "no walk over the sides of a face decides whether it is hit", None)
            return
        l, c = cand[0]
        at = Pipe(pipe, self.more)
        f, g, b = self.corner(c), self.corner(self.nx(c)), self.corner(self.pv(c))
        nums = [t.dot(mk("cross", (t.sub(y, x), t.sub(X, x))), n) for x, y in ((f, g), (b, f))]
        A = Alg(e)
        sides = [A.s(z) for d in nums for z in (d, t.neg(d))]

        def resolved(y):
            """the side of an edge the place is on; the normal may have been turned"""
            if kind_(e, y) != "s" or y.op not in ("dot", "mul", "add", "neg", "div"):
                return False
            try:
                return all(alg.limited(20000, A.s, z) in sides for _, z in t.leaves(Twice(Subst(e, None, 1, spread))(y)))
            except alg.Budget:
                return False

        def spread(x):
            if x.op == "dot" and any(y.op == "ite" for y in x.args):
                r = None
                for q, y in t.leaves(x.args[0]):
                    for s, z in t.leaves(x.args[1]):
                        if t.band(q, s):
                            v = t.dot(y, z)
                            r = v if r is None else ite(t.band(q, s), v, r)
                return r
            return None

        def isnear(y):
            return y.op == "lt" and y.attr == "f" and y.args[1] is EPS() and y.args[0].op == "norm" and differs(e, y.args[0], t.norm(t.sub(X, f))) is None
        try:
            K = NearWalk(e, l, resolved, at, isnear)
            Ws = [given(e, W, [(a, x), (b_, y)]) for a, x, b_, y in ((on[0], 0, on[1], 0), (on[0], 0, on[1], 1), (on[0], 1, on[1], 0))]
            ways = K.follow()
        except AnalysisError as x:
            R.check(False, tag + "inside", str(x), None)
            return
        R.setc("polygon_walk_states", K.states)
        for w, known in zip(Ws, ((0, 0), (0, 1), (1, 0))):
            res = {True: set(), False: set()}
            for take, both in ways:
                res[both].add(take(w))
            pc = t.band(*[b if k else t.bnot(b) for b, k in zip(on, known)])
            for x in res[True]:
                d = order.equivalent(e, t.band(x, pc), 0)
                R.check(d is None, tag + "outside", "a face is passed through at a place that is not on the same side of all its sides, and counts as hit", tag + " no hit where the place is on different sides of two sides of the face")
            must, may = self.earlier(T)
            ok = t.band(t.bvar(crosses), t.band(t.bnot(lt(T, num(0.0))), t.bnot(lt(num(1.0), T))))
            must, may = (t.band(pc, t.band(ok, x)) for x in (must, may))
            for x in res[False]:
                x = t.band(pc, x)
                d = order.equivalent(e, t.bor(must, x), x) or order.equivalent(e, t.bor(may, x), may)
                R.check(d is None, tag + "when", "a corner passing through a face is a hit under another condition: differs when %s" % (t.showb(d, 4)[:300] if d else ""),
                        tag + " a hit exactly when the corner passes through the plane in the step, within the face, before the collision kept")
        off = t.bnot(t.band(*on))
        pc = t.band(W, off)
        self.same(nt, T, pc, tag + "time", "the time is not that at which the corner is in the plane of the face")
        self.same(np_, X, pc, tag + "position", "the position is not where the corner passes through the plane")
        for q, want, what in ((lt(EPS(), d0), n, "in front of"), (lt(d0, t.neg(EPS())), t.neg(n), "behind"),
                              (t.band(lt(t.fabs(d0), EPS()), lt(d1, num(0.0))), n, "in"), (t.band(lt(t.fabs(d0), EPS()), lt(num(0.0), d1)), t.neg(n), "in")):
            self.same(nn, want, t.band(pc, q), tag + "side", "the normal does not point to where the corner comes from, starting %s the face" % what)
        R.check(True, tag + "result", "", tag + " time, position and normal are those of the corner in the plane of the face")

    def inplane(self, W, nt, np_, nn, on, pipe):
        """the corner stays in the plane of the face: the first side it passes"""
        e, R, tag = self.e, self.R, self.tag
        pc = t.band(W, t.band(*on))
        nt, np_, nn = (knowing(e, x, [(b, 1) for b in on]) for x in (nt, np_, nn))
        ts = sorted({x for _, x in t.leaves(Subst(e, None, pc)(nt), pc)}, key=lambda x: x.id)
        ps = sorted({x for _, x in t.leaves(Subst(e, None, pc)(np_), pc)}, key=lambda x: x.id)
        ls = [(l, c) for l, c, n in self.loops.values() if any(occurs(y, lambda z: z in l.mus) for y in ts + ps)]
        if len(ts) != 1 or len(ps) != 1 or len(ls) != 1 or ls[0][0].driver() is None or ls[0][0].driver()[0] is not ls[0][1]:
            R.check(False, tag + "plane:", "no walk over all sides of a face decides when a corner that stays in its plane hits it", None)
            return
        (l, c), ct, cp = ls[0], ts[0], ps[0]
        vs = [m for m in l.mus if m is not c and any(occurs(y, lambda z: z is m) for y in (ct, cp, t.frombdd(W)))]
        # kept as an option, it has to be there
        some = 1
        for m in vs:
            if l.init(m).op == "agg" and t.variant_of(l.init(m)) == 0:
                some = t.band(some, t.bvar(mk("is", (m,), 1)))
        for x in {y for _, y in t.leaves(Subst(e, None, pc)(nn), pc)}:
            R.check(differs(e, x, self.n) is None or differs(e, x, t.neg(self.n)) is None, tag + "plane:normal", "the normal is not that of the face", tag + " in the plane: the face's normal")
        # none found / found
        R.check(order.equivalent(e, self.C.b(Subst(e, {m: l.init(m) for m in vs}).b(W)), 0) is None, tag + "plane:none", "a hit although the corner passes no side", tag + " in the plane: no hit when no side is passed")
        inside = t.band(t.bnot(lt(ct, num(0.0))), t.bnot(lt(num(1.0), ct)))
        inside = t.band(inside, some)
        must, may = self.earlier(ct)
        x = t.band(drop(W, lambda y: y.attr == "i"), inside)
        d = order.equivalent(e, t.bor(t.band(inside, must), x), x) or order.equivalent(e, t.bor(t.band(inside, may), x), t.band(inside, may))
        R.check(d is None, tag + "plane:when", "passing a side of the face is a hit under another condition: differs when %s" % (t.showb(d, 4)[:300] if d else ""), tag + " in the plane: a hit exactly when a side is passed, before the collision kept")
        at = Pipe(pipe, self.more)
        n, p0, p1 = self.n, self.p0, self.p1
        T, X = S("t"), V("y")

        def side(r, f, g):
            u = t.sub(g, f)
            lo = mk("cross", (n, u))
            lo = t.div(lo, t.norm(lo))
            s, q = t.dot(t.sub(p0, f), lo), t.dot(t.sub(p1, f), lo)
            tr = t.div(s, t.sub(s, q))
            ren = [Subst(e, None, 1, renamer(e, a, b, ("div", "neg", "mul"))) for a, b in ((tr, T), (t.neg(tr), t.neg(T)))]
            fin = t.sym("reaches")
            h = lambda x: fin if x.op == "batom" and x.attr == "isfin" and x.args[0] in (T, t.neg(T)) else None
            sub = Pipe(at, *ren, Subst(e, None, 1, h), Subst(e, None, 1, renamer(e, along(p0, p1, T), X, ("add",))), self.C)
            nxt = Subst(e, {m: sub(l.nxt(m)) for m in vs})
            a, b = nxt(ct), nxt(cp)
            keep = 0
            for k, x in t.leaves(a):
                if x is ct:
                    keep = t.bor(keep, k)
            G = drop(t.bnot(keep), lambda y: y.attr == "i" or y.op == "batom" and str(y.attr).startswith("ovf"))
            al = t.dot(t.sub(X, f), u)
            ref = t.bvar(fin)
            for q in (lt(T, num(0.0)), lt(num(1.0), T), lt(al, num(0.0)), lt(t.dot(u, u), al)):
                ref = t.band(ref, t.bnot(q))
            must, may = (t.band(ref, t.bor(t.bnot(some), q)) for q in (lt(T, ct), t.bnot(lt(ct, T))))
            d = order.equivalent(e, t.bor(must, G), G) or order.equivalent(e, t.bor(may, G), may)
            r.check(d is None, tag + "plane:side", "a side of the face is passed under another condition: differs when %s" % (t.showb(d, 4)[:300] if d else ""), tag + " in the plane: the earliest time a side is passed between its ends")
            for got, want, old, what in ((a, T, ct, "time"), (b, X, cp, "position")):
                d = differs(e, Subst(e, None, G)(got), want, G) or differs(e, Subst(e, None, t.bnot(G))(got), old, t.bnot(G))
                r.check(d is None, tag + "plane:" + what, "the %s is not that of the corner passing the side: %s" % (what, d), "%s in the plane: the %s of passing the side" % (tag, what))
        R.either(lambda r: side(r, self.corner(c), self.corner(self.nx(c))), lambda r: side(r, self.corner(self.pv(c)), self.corner(c)))


class NearWalk(Walk):
    """a walk that may be left when the place is a corner of the polygon, which then counts as inside"""

    def __init__(self, e, lp, isnum, sub, isnear):
        self.isnear, self.near = isnear, None
        super().__init__(e, lp, isnum, sub)

    def at(self, s, state):
        f = super().at(s, state)
        near = self.near
        if near is None:
            return f
        g = Subst(self.e, None, 1, lambda x: (t.TRUE if near else t.FALSE) if self.isnear(x) else None)
        return Pipe(g, f)

    def follow(self):
        self.near = False
        out = super().follow()
        seen = self.seen
        self.near = True
        for st, signs in seen:
            mp = dict(zip(self.vars, st))
            for p in (F(-1), F(0), F(1)):
                f = self.at(p, mp)
                go = t.band(f.b(self.entry), self.D)
                leave, stay = t.band(f.b(self.early), go), t.band(f.b(self.back), go)
                if leave and stay:
                    raise AnalysisError("leaving the walk over a polygon's edges early depends on more than the sides the point is on (%s)" % self.lp.where())
                if leave:
                    out.append((lambda b, f=f: t.bsub(f.b(b), self.ended(True)), len(signs) == 2))
        return out


def around(e, k, c, n):
    """1: k is the place after c in 0..n, around the end; -1: the one before; None: neither"""
    def rem(lo, hi):
        def hook(x):
            if x.op == "iop:Rem" and x.args[1] is hi:
                for y in (x.args[0], t.iadd(x.args[0], hi, -1)):
                    if y in lo:
                        return y
            if x.op == "batom" and str(x.attr).startswith("ovf"):
                return t.FALSE
            return None
        return hook
    c1 = t.iadd(c, cint(1))
    # last one / not the last one
    last = Subst(e, {n: c1}, 1, rem((cint(0), c), c1))(k)
    rest = Subst(e, {t.ieq(c1, n): t.FALSE}, t.tobdd(t.ilt(c1, n)), rem((c1, c), n))(k)
    if last is cint(0) and rest is c1:
        return 1
    m1 = t.iadd(c, cint(-1))
    z = Subst(e, {c: cint(0)}, t.tobdd(t.ilt(cint(0), n)), rem((cint(0), t.iadd(n, cint(-1))), n))(k)
    more = Subst(e, {t.ieq(c, cint(0)): t.FALSE}, t.tobdd(t.ilt(cint(0), c)), rem((m1, c), n))(k)
    if z is t.iadd(n, cint(-1)) and more is m1:
        return -1
    return None


def given(e, W, known):
    """W where the conditions (atoms, compared by what they say) have the values given"""
    A = Alg(e)
    for b, v in known:
        if b < 2:
            continue
        cb = A.canon(b)
        for a in sorted(t.bsupport(W), key=lambda a: a.id):
            x = A.canon(t.bvar(a))
            if x == cb or x == t.bnot(cb):
                W = t.bcof(W, a, v if x == cb else 1 - v)
    return W


def knowing(e, x, known):
    """the value x where the conditions have the values given"""
    A = Alg(e)
    at, mp = set(), {}
    occurs(x, lambda y: at.update(t.bsupport(y.attr)) if y.op in ("ite", "cond") else False)
    for b, v in known:
        cb = A.canon(b)
        for a in at:
            y = A.canon(t.bvar(a))
            if y == cb or y == t.bnot(cb):
                mp[a] = t.TRUE if v == (y == cb) else t.FALSE
    return Subst(e, mp)(x)


def drop(b, pred):
    """without the atoms that say where a loop is: taken to hold as they have to for b to hold"""
    for a in sorted(t.bsupport(b), key=lambda a: a.id):
        if pred(a):
            y, n = t.bcof(b, a, 1), t.bcof(b, a, 0)
            b = y if n == 0 else n if y == 0 else t.bor(y, n)
    return b


def result(P, R, w1, w2, tag):
    """the earlier of both, seen from the world, its normal turned to most corners"""
    e = P.e
    h, tm, p, n = P.parts()
    kept = {w: w.kept(w.E) for w in (w1, w2)}

    def intime(x):
        # the times kept are within the step
        if x.op == "lt" and x.attr == "f" and x.args[1].op == "f" and x.args[1].attr == "inf" and any(x.args[0] is tm_ for _, tm_ in kept.values()):
            return t.TRUE
        return None
    C = clean(e, intime)
    h, tm, p, n = C.b(h), C(tm), C(p), C(n)
    (h1, t1), (h2, t2) = (kept[w] for w in (w1, w2))
    d = order.equivalent(e, h, t.bor(h1, h2))
    R.check(d is None, tag + "kept", "what is reported is not whether a collision was found", tag + " a collision is reported exactly when one was found")
    for w, pc in ((w1, t.band(h1, t.bor(t.bnot(h2), lt(t1, t2)))), (w2, t.band(h2, t.bor(t.bnot(h1), lt(t2, t1))))):
        k = tag + w.name + ":"
        tk = kept[w][1]
        _, _, kp, kn = P.parts(w.E)
        d = differs(e, Subst(e, None, pc)(tm), tk, pc)
        R.check(d is None, k + "kept", "the time is not that of the earlier collision: %s" % d, k + " the earlier collision is reported")
        pn = Subst(e, None, pc)(n)
        turn = majority(P, R, w, C, pn, pc, k)
        if turn is None:
            continue
        pos = along(w.sf.get("position"), w.ef.get("position"), tk)
        best = []
        for rt in turned(w.sf.get("rotation"), w.ef.get("rotation"), tk):
            wp = t.add(pos, rot(rt, t.add(kp, w.sf.get("internal_origin_offset"))))
            wn = rot(rt, ite(turn, t.neg(kn), kn))
            wn = t.neg(wn) if w is w1 else wn
            best.append((differs(e, Subst(e, None, pc)(p), wp, pc), differs(e, pn, wn, pc)))
        for i, x in ((0, "position"), (1, "normal")):
            R.check(any(b[i] is None for b in best), k + x, "the %s is not that found, taken to the world at the time of the collision: %s" % (x, best[0][i]), "%s the %s is taken to the world as the mesh with the face is at the time of the collision" % (k, x))


def majority(P, R, w, C, n, pc, k):
    """condition under which more corners are behind the collision than not"""
    e = P.e
    at = set()
    for c, x in t.leaves(n):
        at |= set(t.bsupport(c))
    occurs(n, lambda y: at.update(t.bsupport(y.attr)) if y.op == "ite" else False)
    found = None
    for a in sorted(at, key=lambda a: a.id):
        if a.op != "lt" or a.attr != "i":
            continue
        c0, d = t.lin(a.args[1])
        ls = {e.mu[y]["loop"] for y in d if y.op == "mu" and y in e.mu}
        ls = [Loop(e, x) for x in ls]
        ls = [l for l in ls if l.driver() and any(y in l.mus and y is not l.driver()[0] for y in d)]
        if len(ls) != 1:
            continue
        l = ls[0]
        dr = l.driver()
        if dr[1] != "count" or l.init(dr[0]) is not cint(0) or (listsource(e, dr[2]) or dr[2]) is not vlen(e, w.O.get("vertices")):
            continue
        found = (a, l, dr, c0, d)
        break
    if found is None:
        R.check(False, k + "turned", "no count of the corners in front of and behind the collision decides which way its normal points", None)
        return None
    a, l, dr, c0, d = found
    v = velem(e, w.O.get("vertices"), dr[0])
    alg.setkind(v, "v")
    sub = Pipe(clean(e, resolver(e)), *w.pointnames(v))
    _, tk, kp, kn = P.parts(w.E)
    behind = lt(t.dot(t.sub(along(w.p0, w.p1, tk), kp), kn), num(0.0))
    tot = {1: 0, 0: 0}
    base, bad = c0, None
    for y, co in d.items():
        if y is dr[2]:
            for s in tot:
                tot[s] += co
            continue
        i = l.init(y) if y in l.mus else None
        if i is None or i.op != "i":
            bad = "what is counted was not understood"
            break
        base += co * int(i.attr)
        g = t.mapite(sub(l.nxt(y)), lambda z: t.iadd(z, y, -1))
        for s in tot:
            q = behind if s else t.bnot(behind)
            v = {int(z.attr) if z.op == "i" else None for r, z in t.leaves(g) if order.equivalent(e, t.band(r, q), 0) is not None}
            if len(v) != 1 or None in v:
                bad = "the corners behind the collision are not those counted"
                break
            tot[s] += co * v.pop()
    if bad is None and (base != 0 or tot[1] <= 0 or tot[1] != -tot[0]):
        bad = "it is turned in other cases than when more corners are behind than not"
    R.check(bad is None, k + "turned", "the side the normal points to: %s" % bad, k + " the normal points to the side with most corners")
    return None if bad else t.bvar(a)
