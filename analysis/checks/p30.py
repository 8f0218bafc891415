"""Adding a face to a mesh."""
from narrow import *
import order

Z0 = cint(0)


def run(M, R):
    R.expl = ("add_face is interpreted on a symbolic mesh and a symbolic list of points; each of its loops is compared with the specification round by round (what completes a round, what a round appends), indices that wrap around case by case "
              "with the length of the list written as index + distance, comparisons of floats including NaN")
    alg.POS.clear()
    alg.SQUARES.clear()
    alg.FINITE[0] = False
    fs = [f for f in M.d.fns.values() if f["local"] and f.get("name") == "add_face" and f["vis"] == "pub" and f["argc"] == 2]
    if len(fs) != 1:
        raise AnalysisError("add_face not found")
    f = fs[0]
    mt, pt = (M.d.types[f["locals"][i][0]]["to"] for i in (1, 2))
    m = Obj(M, mt, "M")
    e = M.engine()
    P = t.sym("points")
    s, r = M.run(e, f, [m.ref, mkref(("pts",), ())], St({m.root: m.v, ("pts",): P}, 1))
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "known", "add_face")
    R.check(s is not None, "returns", "add_face never returns", "add_face returns for some points")
    if s is None:
        return
    A = Add(M, R, e, s, m, P, mt)
    A.fields()
    A.vertices()
    A.edges()
    A.faces()
    A.checked()
    A.panics()
    counts(M, R, f, mt, A.paths)


def counts(M, R, f, mt, paths):
    """how much geometry there is: of a new mesh, and as it is told"""
    fs = {x["name"]: x for x in M.d.fns.values() if x["local"] and x["kind"] == f["kind"] and x["path"].rsplit("::", 1)[0] == f["path"].rsplit("::", 1)[0]}
    e = M.engine()
    s, r = M.run(e, fs["new"], [], St({}, 1))
    for n, p in paths.items():
        R.check(e.project(e.projpath(r, p, St({}, 1)), VL) is Z0, "new:" + n, "a new mesh has %s" % n, "a new mesh has no %s" % n)
    for fn, n in (("vertex_count", "vertices"), ("edge_count", "edges"), ("face_count", "faces")):
        if fn not in fs:
            raise AnalysisError(fn + " not found")
        m = Obj(M, mt, "M")
        e, s, r = call(M, R, fs[fn], [m.ref], [m])
        R.check(r is e.project(e.projpath(m.v, paths[n], St({}, 1)), VL), fn, "%s is not the number of %s: %s" % (fn, n, t.show(r, 4)[:200]), "%s is the number of %s" % (fn, n))
        unchanged(R, s, [m], fn + ":args", fn)


class Add:
    def __init__(self, M, R, e, s, m, P, mt):
        self.M, self.R, self.e, self.s, self.m, self.P = M, R, e, s, m, P
        self.loops = [Loop(e, k) for k in e.loopinfo if e.loopinfo[k].get("backst") is not None]
        # what no completed round of its loop changes is as it was before the loop
        self.const = {}
        for lp in self.loops:
            for x in lp.mus:
                if lp.nxt(x) is x:
                    self.const[x] = lp.init(x)
        self.n, self.pm = vlen(e, P), e.project(P, VM)
        self.fixed = Subst(e, self.const, 1, self.noovf)
        self.new = subst(e, self.fixed(s.mem[m.root]), None, self.fixed.b(s.pc))
        f = lambda n: (M.d.fproj(mt, n),)
        self.paths = {n: f(n) for n in ("vertices", "faces", "edges")}
        self.mt = mt
        self.V = self.one("vertices")
        self.E = self.one("edges")

    def part(self, o, n, p):
        return self.e.project(self.e.projpath(o, self.paths[n], St({}, 1)), p)

    def one(self, n):
        """the loop that adds to a list: (loop, length, contents)"""
        l, mp = self.part(self.new, n, VL), self.part(self.new, n, VM)
        if l.op != "mu" or mp.op != "mu" or l not in self.e.mu or mp not in self.e.mu or self.e.mu[l]["loop"] != self.e.mu[mp]["loop"]:
            self.R.check(False, n + ":loop", "the %s after add_face are not what a loop appended to those before: %s" % (n, t.show(l, 4)[:200]), None)
            raise AnalysisError("%s are not filled by a loop" % n)
        lp = Loop(self.e, self.e.mu[l]["loop"])
        self.R.check(lp.init(l) is self.part(self.m.v, n, VL) and lp.init(mp) is self.part(self.m.v, n, VM), n + ":old", "add_face forgets %s that were there" % n, "the old %s stay" % n)
        self.R.count("loops")
        return lp, l, mp

    def fields(self):
        d = self.M.d
        n = 0
        for i, x in enumerate(self.m.v.args):
            p = self.M.d.types[self.mt]
            if any(self.e.projpath(self.m.v, q, St({}, 1)) is x for q in self.paths.values()):
                continue
            n += 1
            self.R.check(self.new.op == "agg" and self.new.args[i] is x, "field:%s" % t.show(x, 2), "add_face changes %s" % t.show(x, 2), "%s is left alone" % t.show(x, 2))
        self.R.floor("other fields", n, 5)

    # ------------------------------------------------------------ vertices
    def round(self, lp):
        """condition under which a round starts, from the counter's bound"""
        d = lp.driver()
        return None if d is None or d[1] != "count" else t.tobdd(t.ilt(d[0], d[2]))

    def inner(self, outer):
        """the loops in the rounds of another, in order"""
        return [lp for lp in self.loops if lp.stack and lp.stack[-1] == outer.key]

    def search(self, what, outer, length, hit, sub=lambda x: x, pc=1, tag=""):
        """the search of a list from its start for an element with hit(index); -> its counter"""
        R = self.R
        ls = [lp for lp in self.inner(outer)]
        if len(ls) != 1:
            R.check(False, what + ":search", "%d loops look for the %s of a point that is there already" % (len(ls), what), None)
            return None
        lp = ls[0]
        cs = [c for c in lp.counters() if lp.init(c) is Z0]
        b = getattr(sub, "b", lambda x: x)
        for c in cs:
            go = t.tobdd(t.ilt(c, length))
            if not t.bimp(lp.back, go):
                continue
            # every round but that of a hit completes, and no round takes place after the last
            done = Subst(self.e, None, pc).b(b(lp.back))
            want = t.bnot(hit(c))
            x = self.same(done, want, t.band(Subst(self.e, None, pc).b(b(t.band(lp_entry(lp), go))), pc))
            R.check(x is None, what + ":search" + tag, "a search through the %s does not stop exactly at the one it looks for%s" % (what, self.eg(x)), "%s: the search stops at the first match" % what)
            return c
        R.check(False, what + ":search", "the %s are not searched from the first to the last" % what, None)
        return None

    def same(self, a, b, pc):
        pc = self.sane(pc)
        return order.equivalent(self.e, self.sane(a), b, pc)

    def sane(self, c):
        """lengths are far from overflow"""
        return self.fixed.b(c)

    @staticmethod
    def eg(x):
        return "" if not x else ", e.g. when " + t.showb(x, 3, 1)[:300]

    def vertices(self):
        R, e = self.R, self.e
        lp, l, mp = self.V
        d = lp.driver()
        ok = d is not None and d[1] == "count" and d[2] is self.n and lp.init(d[0]) is Z0
        R.check(ok, "vertices:walk", "add_face does not go through all the points when it stores them", "every point is stored or found")
        if not ok:
            raise AnalysisError("no walk over the points")
        c = d[0]
        pc_ = e.mksel(self.pm, c, (), St({}, 1))
        # the indices: the other list that grows in this loop
        idx = [(x, y) for y in lp.mus for x in lp.mus if lp.init(y).op == "emptymap" and lp.init(x) is Z0 and self.grows(lp, x, y)]
        R.check(len(idx) == 1, "indices:list", "the loop over the points does not list one index per point", "one list of indices")
        if len(idx) != 1:
            raise AnalysisError("no list of indices")
        il, im = idx[0]
        self.il, self.im, self.vc = il, im, c
        near = lambda k: lt(t.norm(t.sub(e.mksel(mp, k, (), St({}, 1)), pc_)), EPS())
        k = self.search("vertices", lp, l, near)
        if k is None:
            return
        back = self.sane(lp.back)
        found = t.tobdd(t.ilt(k, l))
        for case, cnd, wi, wl, wm in (("found", found, k, l, mp), ("new", t.bnot(found), l, t.iadd(l, cint(1)), mk("store", (mp, l, pc_), ()))):
            g = t.band(back, cnd)
            R.check(g != 0, "vertices:%s" % case, "no round of the loop over the points takes the case of a point that is %s" % case, None)
            for nm, x, want in (("index", im, mk("store", (im, il, wi), ())), ("count of indices", il, t.iadd(il, cint(1))), ("number of vertices", l, wl), ("vertices", mp, wm)):
                got = self.under(lp, x, g)
                R.check(got is want or self.equal(got, want, g), "vertices:%s:%s" % (case, nm), "a point that is %s: the %s become %s, not %s" % (case, nm, t.show(got, 4)[:200], t.show(want, 4)[:200]), "a point that is %s: %s" % (case, nm))
        R.count("obligations", 8)

    def under(self, lp, x, g):
        v = lp.mus[x]["next"]
        return subst(self.e, self.fixed(v), None, g)

    @staticmethod
    def noovf(x):
        return t.FALSE if x.op == "batom" and str(x.attr).startswith("ovfAdd") else None

    def equal(self, a, b, pc):
        """equal in every case that is possible"""
        if a is b:
            return True
        if a.op == "ite":
            y, n = t.band(pc, a.attr), t.band(pc, t.bnot(a.attr))
            return (not self.possible(y) or self.equal(a.args[0], b, y)) and (not self.possible(n) or self.equal(a.args[1], b, n))
        if b.op == "ite":
            return self.equal(b, a, pc)
        if a.op == b.op and a.op in ("agg", "store") and a.attr == b.attr and len(a.args) == len(b.args):
            return all(self.equal(x, y, pc) for x, y in zip(a.args, b.args))
        if isint(a) and isint(b):
            # not different
            return not self.possible(t.band(pc, t.bnot(t.tobdd(t.ieq(a, b)))))
        return False

    def possible(self, c):
        return c != 0 and order.equivalent(self.e, c, 0) is not None

    def grows(self, lp, l, mp):
        g = self.sane(lp.back)
        return all(x.op == "store" and x.args[0] is mp and x.args[1] is l for x in self.cases(self.under(lp, mp, g), g))

    def cases(self, x, pc, n=0):
        """the values of x, choices inside it made"""
        c = []
        occurs(x, lambda y: c.append(y.attr) if y.op == "ite" else False)
        if not c or n > 8:
            return [x]
        a = t.bvar(min(t.bsupport(c[0]), key=lambda z: z.id))
        r = []
        for g in (t.band(pc, a), t.band(pc, t.bnot(a))):
            if self.possible(g):
                r += self.cases(subst(self.e, x, None, g), g, n + 1)
        return r

    # ------------------------------------------------------------ edges
    def wraps(self, c, n):
        """[(name, substitution)]: the index c below n by its distance from the end"""
        k = t.sym("k")
        return [("inside", {n: t.iadd(c, t.iadd(k, cint(3)))}), ("last but one", {c: t.iadd(k, cint(1)), n: t.iadd(k, cint(3))}), ("last", {c: t.iadd(k, cint(2)), n: t.iadd(k, cint(3))})]

    def wrapper(self, mp):
        """substitution, sums of integers and remainders decided where they can be"""
        def hook(x):
            if x.op == "batom" and str(x.attr).startswith("ovf"):
                return t.FALSE
            if x.op == "iop:Rem":
                a, b = x.args
                for q in (0, 1):
                    a_ = t.iadd(a, b, -q)
                    d = t.iadd(b, a_, -1)
                    if nonneg(a_) and nonneg(t.iadd(d, cint(-1))):
                        return a_
            if x.op == "lt" and x.attr == "i":
                g = x.args[1]
                if nonneg(t.iadd(g, cint(-1))):
                    return t.TRUE
                if nonneg(t.neg(g) if g.op == "i" else t.iadd(Z0, g, -1)):
                    return t.FALSE
            if x.op == "ieq":
                g = x.args[0]
                if nonneg(t.iadd(g, cint(-1))) or nonneg(t.iadd(cint(-1), g, -1)):
                    return t.FALSE
            return None
        mp = dict(mp)
        mp.update(self.const)
        return Subst(self.e, mp, 1, hook)

    def allsides(self, lp):
        """the counter of a loop with one round for every point, which does not end before the last"""
        for c, i0 in lp.counters().items():
            if i0 is not Z0:
                continue
            for n in (self.il, self.n):
                go = t.tobdd(t.ilt(c, n))
                if t.bimp(lp.back, go) and not any(self.possible(w.b(t.band(lp.exitcond(), go))) for w in (self.wrapper(mps) for _, mps in self.wraps(c, n))):
                    return c
        return None

    def edges(self):
        R, e = self.R, self.e
        lp, l, mp = self.E
        c = self.allsides(lp)
        R.check(c is not None, "edges:walk", "add_face does not go through all the sides of the face", "every side is stored or found")
        if c is None:
            return
        for case, mps in self.wraps(c, self.il):
            mps = dict(mps)
            mps[self.n] = mps[self.il]
            w = self.wrapper(mps)
            cc = w(c)
            nx_ = Z0 if case == "last" else t.iadd(cc, cint(1))
            a, b = (e.mksel(self.im, k, (), St({}, 1)) for k in (cc, nx_))
            ab, ba = t.tobdd(t.ilt(a, b)), t.tobdd(t.ilt(b, a))
            eqv = t.tobdd(t.ieq(a, b))
            for how, pc, lo, hi in (("<", t.band(ab, t.band(t.bnot(ba), t.bnot(eqv))), a, b), (">", t.band(ba, t.band(t.bnot(ab), t.bnot(eqv))), b, a)):
                tag = "%s %s" % (case, how)
                hit = lambda k: t.band(*(t.tobdd(t.ieq(e.mksel(mp, k, (("f", i, 2, "tuple"),), St({}, 1)), v)) for i, v in ((0, lo), (1, hi))))
                k = self.search("edges", lp, l, hit, w, pc, ":" + tag)
                if k is None:
                    return
                found = t.tobdd(t.ilt(k, l))
                back = t.band(self.sane(w.b(lp.back)), pc)
                for what, cnd, wl, wm in (("found", found, l, mp), ("new", t.bnot(found), t.iadd(l, cint(1)), mk("store", (mp, l, agg("tuple", [lo, hi])), ()))):
                    g = t.band(back, cnd)
                    R.check(self.possible(g), "edges:%s:%s" % (tag, what), "no round of the loop over the sides takes the case of a side that is %s (%s)" % (what, tag), None)
                    for nm, x, want in (("number of edges", l, wl), ("edges", mp, wm)):
                        got = subst(self.e, w(lp.mus[x]["next"]), None, g)
                        R.check(self.equal(got, want, g), "edges:%s:%s:%s" % (tag, what, nm), "a side (%s) that is %s: the %s become %s, not %s" % (tag, what, nm, t.show(got, 4)[:200], t.show(want, 4)[:200]), "a side (%s) that is %s: %s" % (tag, what, nm))
                        R.count("obligations")

    # ------------------------------------------------------------ faces
    def faces(self):
        R, e = self.R, self.e
        l0, m0 = self.part(self.m.v, "faces", VL), self.part(self.m.v, "faces", VM)
        l1, m1 = self.part(self.new, "faces", VL), self.part(self.new, "faces", VM)
        R.check(t.iadd(l1, l0, -1) is cint(1), "faces:count", "add_face does not add exactly one face", "one face more")
        ok = m1.op == "store" and m1.args[0] is m0 and m1.args[1] is l0 and m1.attr == ()
        R.check(ok and e.project(m1.args[2], VL) is self.il and e.project(m1.args[2], VM) is self.im, "faces:indices", "the face that is added is not the list of the points' indices in order", "the new face lists the indices of its points")

    # ------------------------------------------------------------ what is refused
    def checked(self):
        R, e = self.R, self.e
        pc = self.s.pc
        R.check(order.implies(e, self.sane(pc), t.bnot(t.tobdd(t.ilt(self.n, cint(3))))), "points", "add_face accepts fewer than three points", "three points at least")
        p = lambda i: e.mksel(self.pm, i, (), St({}, 1))
        normal = lambda i, j, k: t.normalize(t.cross(t.sub(p(j), p(i)), t.sub(p(k), p(i))))
        first = normal(Z0, cint(1), cint(2))
        bads = []
        for lp in self.loops:
            if lp.stack or lp.key in (self.V[0].key, self.E[0].key):
                continue
            bad = self.check1(lp, first, normal)
            if not bad:
                R.count("loops")
                R.check(True, "normals", "", "every corner of the face is compared with the first")
                return
            bads.append(bad)
        R.check(False, "normals", "no loop refuses exactly the faces with a corner whose normal is not that of the first: " + "; ".join(x for b in bads for x in b)[:600], None)

    def check1(self, lp, first, normal):
        e, bad = self.e, []
        for c in lp.counters():
            if lp.init(c) is not Z0:
                continue
            go = t.tobdd(t.ilt(c, self.n))
            if not t.bimp(lp.back, go):
                continue
            # add_face goes on only when all rounds took place
            if not order.implies(e, self.sane(self.s.pc), t.bnot(go)):
                bad.append("add_face can return although a corner was refused")
            w = self.wrapper({self.n: t.iadd(t.sym("k"), cint(3))})
            x = w.b(lp_entry(lp))
            if x != 1 and order.equivalent(e, x, 1) is not None:
                bad.append("with three points or more the corners are not looked at when " + t.showb(t.bnot(x), 3, 1)[:200])
            for case, mps in self.wraps(c, self.n):
                w = self.wrapper(mps)
                cc = w(c)
                j = Z0 if case == "last" else t.iadd(cc, cint(1))
                k = t.iadd(cc, cint(2)) if case == "inside" else Z0 if case == "last but one" else cint(1)
                good = t.tobdd(t.flt(t.fabs(t.sub(t.dot(normal(cc, j, k), first), num(1.0))), EPS()))
                en = w.b(lp_entry(lp))
                x = self.same(w.b(lp.back), good, en)
                self.R.count("obligations")
                if x is not None:
                    bad.append("the corner at the %s point%s" % (case, self.eg(x)))
                # a corner without a normal: comparisons with it fail
                nan = t.bsub(w.b(lp.back), lambda a: 0 if a.op in ("lt", "le") and a.attr == "f" or a.op == "feq" else 1 if a.op == "batom" and a.attr == "isnan" else None)
                if self.possible(t.band(nan, en)):
                    bad.append("the corner at the %s point is accepted when it has no normal (NaN)" % case)
            return bad
        return ["the points are not all looked at"]

    # ------------------------------------------------------------ no other panic
    def panics(self):
        R, e = self.R, self.e
        n = 0
        for ev in e.log:
            if ev["kind"] != "panic":
                continue
            n += 1
            if "panic" in ev["why"]:
                few = t.tobdd(t.ilt(self.n, cint(3)))
                c = self.sane(ev["cond"])
                # for lack of points, or where the loops stop: judged there
                continue
            left = 0
            cases = [({}, "")]
            lps = ev["loops"]
            if lps:
                lp = Loop(e, lps[0])
                cs = [c for c in lp.counters() if lp.init(c) is Z0]
                if cs and lp.key != self.V[0].key:
                    cases = [(dict(mps), nm) for nm, mps in self.wraps(cs[0], self.n)]
                    for mps, _ in cases:
                        mps[self.il] = mps[self.n]
            for mps, nm in cases:
                w = self.wrapper(mps)
                c = w.b(ev["cond"])
                c = t.band(c, order.theory(alg.Alg(e), [c]))
                if c and self.possible(c):
                    left = c
            R.check(left == 0, "panic:%s:%s" % (ev["why"], len(lps)), "add_face can panic (%s)%s" % (ev["why"], self.eg(left)), "%s never fails" % ev["why"])
        R.count("panic_sites", n)


def nonneg(x):
    """a sum of unsigned terms that cannot be negative"""
    c, d = t.lin(x)
    return c >= 0 and all(v >= 0 for v in d.values())


def lp_entry(lp):
    en = lp.entry
    return en if isinstance(en, int) else getattr(en, "pc", 1)
