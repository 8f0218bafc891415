"""Cached mass properties always agree with the linked colliders."""
from totals import *

METH = {"get_mass": "s", "get_local_center_of_mass": "v", "get_moment_of_inertia_tensor": "m"}


class Mass:
    """the entity's mass properties the colliders in its set call for, and those it has, after an operation"""

    def __init__(self, M, R, name):
        self.M, self.R, self.name = M, R, name
        f = M.api(name)
        e = self.e = M.engine()
        paths = M.virtual_paths(METH)
        e.open_virtual |= paths
        self.meth = {p.split("::")[-1]: p for p in paths}
        if set(self.meth) != set(METH):
            raise AnalysisError("colliders are not asked for %s" % sorted(set(METH) - set(self.meth)))
        st = St({}, 1)
        self.args = e.default_args(f, st)
        self.args[0] = M.selfref()
        self.s, self.ret = M.run(e, f, self.args, st)
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        for u in e.unknown:
            R.check(False, name + ":unmodelled:" + u, "%s calls %s, whose effect is not known" % (name, u))
        for y in list(t.S.all):
            if y.op == "user" and y.attr[0].split("::")[-1] in METH:
                alg.setkind(y, METH[y.attr[0].split("::")[-1]])
        self.W = World(M, e, self.s)

    def f(self, *names):
        tid, path = self.M.ient, []
        for n in names:
            path.append(self.M.d.fproj(tid, n))
            tid = self.M.d.fields(tid)[self.M.d.field_index(tid, n)]["t"]
        return tuple(path), alg.typekind(self.M.d.types, tid)

    def old(self, h, *names):
        p, k = self.f(*names)
        x = self.W.canon(self.e.mksel(self.W.E0, h, p))
        if k:
            alg.setkind(x, k)
        return x

    def new(self, h, pc, *names):
        p, k = self.f(*names)
        x = self.N(self.T(self.W.canon(self.W.at(self.W.E1, h, p, pc))))
        if k:
            alg.setkind(x, k)
        return x

    def fresh(self, h, pc, n):
        p, k = self.f("orientation", n)
        x = restrict(self.W.at(self.W.E1, h, p, pc), pc)
        if k:
            alg.setkind(x, k)
        return x

    def member(self, S, name):
        """value of a collider method of the member of S"""
        W = self.W
        x = mk("user", (W.e.mksel(self.C, mk("idx", (S,)), (), St({}, self.pc)),), (self.meth[name],))
        alg.setkind(x, METH[name])
        x = self.N(self.T(x))
        alg.setkind(x, METH[name])
        return x

    def form(self, m, y, x):
        """y . (m x), inside sums"""
        if m.op == "add":
            return t.add(self.form(m.args[0], y, x), self.form(m.args[1], y, x))
        if m.op == "ite":
            r = ite(m.attr, self.form(m.args[0], y, x), self.form(m.args[1], y, x))
        elif m.op == "total":
            r = mk("total", (m.args[0], self.form(m.args[1], y, x)))
        else:
            return t.dot(y, mk("mm", (m, x)))
        alg.setkind(r, "s")
        return r

    def cases(self, h, pc, depth=0):
        """pc split until the collider map and the set of h have one definite value -> [(condition, set, map, substitution)]"""
        W, e = self.W, self.e
        pc = t.band(pc, W.facts(pc))
        if pc == 0:
            return []
        S = Subst(e, pc=pc)(self.T(W.canon(W.at(W.E1, h, self.f("colliders")[0], pc))))
        C = Subst(e, pc=pc)(W.C1)
        at = self.undecided(S, pc) or self.undecided(C, pc)
        if at is None:
            return [(pc, S, C)]
        if depth > 14:
            raise AnalysisError("%s: too many cases" % self.name)
        v = t.bvar(at)
        out = []
        for c in (t.band(pc, v), t.band(pc, t.bnot(v))):
            if c and W.infeasible(c) is not None:
                out += self.cases(h, c, depth + 1)
        return out

    def undecided(self, x, pc):
        """an atom the spine of a set or map depends on"""
        while True:
            if x.op == "ite":
                return min((a for a in t.bsupport(t.bcons(x.attr, pc)) if t.band(pc, t.bvar(a)) and t.band(pc, t.bnot(t.bvar(a)))), key=lambda a: a.id)
            if x.op == "store":
                r = self.undecided(x.args[2], pc) if x.args[2].op == "ite" and not x.attr else None
                if r is not None:
                    return r
                x = x.args[0]
            elif x.op in ("srem", "sins"):
                x = x.args[0]
            else:
                return None

    def verify(self, tag, h, pc, frame=None):
        """entity h is coherent after the operation whenever pc; frame: (position, rotation, offset) it is to keep its local space at"""
        self.T = Totals(self.W, pc)
        cs = self.cases(h, pc)
        self.R.check(bool(cs), tag + ":reached", "%s never leaves an entity to look at" % tag, "the case occurs")
        for pc, S, C in cs:
            self.case(tag, h, pc, S, C, frame)

    def case(self, tag, h, pc, S, C, frame):
        R, W, e = self.R, self.W, self.e
        self.pc, self.C = pc, C
        self.N = Subst(e, pc=pc, hook=lambda x: self.T.method(x) if x.op == "user" else None)
        pos0, rot, off0 = frame or (self.old(h, "orientation", "position"), self.old(h, "orientation", "rotation"), self.old(h, "orientation", "internal_origin_offset"))
        own = self.new(h, pc, "own_mass")
        m, com, I = (self.member(S, n) for n in ("get_mass", "get_local_center_of_mass", "get_moment_of_inertia_tensor"))
        if S.op == "emptyset":
            M, C, some = num(0.0), zero3(), 0
        else:
            M = mk("total", (S, m))
            alg.setkind(M, "s")
            world = lambda x: t.add(rot_(rot, t.add(x, off0)), pos0)
            C = mk("total", (S, t.mul(m, world(com))))
            alg.setkind(C, "v")
            some = exists(S, t.bvar(mk("batom", (m,), "isinf")))
        heavy = t.band(t.bnot(some), t.tobdd(t.flt(num(0.0), M)))
        tm = self.new(h, pc, "total_mass")
        mass = ite(some, num("inf"), ite(heavy, t.add(own, M), own))
        alg.setkind(mass, "s")
        same(R, e, tag + ":mass", tm, mass, "%s: total mass is the entity's own mass plus its colliders' masses" % tag, pc=pc)
        p1, o1 = self.new(h, pc, "orientation", "position"), self.new(h, pc, "orientation", "internal_origin_offset")
        same(R, e, tag + ":position", p1, t.div(C, M), "%s: the position is the center of mass of the colliders" % tag, pc=t.band(pc, heavy))
        if tag != "add_entity":     # a new entity is put where its source says
            same(R, e, tag + ":position:massless", p1, t.add(pos0, rot_(rot, off0)), "%s: without finite massive colliders the position is the origin of the local space" % tag, pc=t.band(pc, t.bnot(heavy)))
        l = V("any_local_point")
        same(R, e, tag + ":frame", t.add(p1, rot_(rot, t.add(l, o1))), t.add(pos0, rot_(rot, t.add(l, off0))), "%s: the local space stays where it is in the world" % tag, pc=pc)
        # inertia about the center of mass
        pm = self.new(h, pc, "prepped_moment_of_inertia")
        fin = 0
        for c, v in t.leaves(mass):
            fin = t.bor(fin, t.band(c, 0 if v.op == "f" and v.attr == "inf" else t.bvar(mk("batom", (v,), "isfin"))))
        want = mk("zeros", (), "mat")
        x, y = V("x"), V("y")
        if S.op != "emptyset":
            d = t.add(o1, com)
            # applied to two arbitrary vectors
            w = t.add(t.dot(y, mk("mm", (I, x))), t.mul(m, t.sub(t.mul(t.dot(d, d), t.dot(x, y)), t.mul(t.dot(d, x), t.dot(d, y)))))
            for c, o in t.leaves(d):
                pass
        got = self.form(pm, y, x)
        if S.op == "emptyset":
            same(R, e, tag + ":inertia", pm, want, "%s: no inertia without colliders" % tag, pc=pc)
            return
        for c, o in t.leaves(o1, pc):
            d = t.add(o, com)
            w = mk("total", (S, t.add(t.dot(y, mk("mm", (I, x))), t.mul(m, t.sub(t.mul(t.dot(d, d), t.dot(x, y)), t.mul(t.dot(d, x), t.dot(d, y)))))))
            alg.setkind(w, "s")
            same(R, e, tag + ":inertia", got, w, "%s: moment of inertia is the sum of the colliders' by the parallel axis theorem" % tag, pc=t.band(t.band(pc, c), fin))
        same(R, e, tag + ":inertia:infinite", pm, want, "%s: an entity of infinite mass has no inertia to turn it" % tag, pc=t.band(pc, t.bnot(fin)))


def rot_(q, v):
    return mk("qrot", (q, v))


def run(M, R):
    R.expl = ("for every operation that changes an entity's own mass, its colliders or their values: the cached mass, center of mass, local frame and inertia left behind are closed forms over an arbitrary set of colliders (sums and an existence condition extracted from the loops), "
              "compared in normal form with the definition")
    n = 0
    for name in ("update_entity", "remove_collider", "update_collider", "link_collider"):
        X = Mass(M, R, name)
        W, e, a = X.W, X.e, X.args
        n += 1
        ok = W.pc
        if name != "remove_collider":
            ok = t.band(W.pc, t.bnot(W.canon.b(fail_cond(None, X.ret, "result"))))
        if name == "update_entity":
            src = lambda f: e.project(a[2], M.d.fproj(M.ent, f))
            for f in ("position", "rotation"):
                alg.setkind(src(f), "v")
            X.verify(name, a[1], t.band(ok, W.elive0(a[1])), (src("position"), mk("qfrom", (src("rotation"),)), X.old(a[1], "orientation", "internal_origin_offset")))
        elif name in ("remove_collider", "update_collider"):
            l = W.link0(a[1])
            h = W.pay(l)
            pc = t.band(ok, t.band(W.clive0(a[1]), W.is1(l)))
            pc = t.band(pc, t.band(W.elive0(h), prims.contains(e, W.coll0(h), a[1])))
            X.verify(name, h, pc)
        else:
            some, h = W.is1(a[2]), W.pay(a[2])
            pc = t.band(ok, some)
            X.verify(name + ":new", h, pc)
            l = W.link0(a[1])
            p = W.pay(l)
            pc = t.band(t.band(ok, W.is1(l)), t.band(t.bnot(t.band(some, e.keyeq(p, h))), W.elive0(p)))
            pc = t.band(pc, prims.contains(e, W.coll0(p), a[1]))
            X.verify(name + ":old", p, pc)
    # a new entity has no colliders yet
    X = Mass(M, R, "add_entity")
    W, e = X.W, X.e
    fail = t.band(W.pc, W.canon.b(fail_cond(None, X.ret, "result")))
    ok = t.band(W.pc, t.bnot(fail))
    v = e.projpath(restrict(X.ret, ok), (("v", 0), ("f", 0, 1, RES + "#0")), St({}, ok))
    for c, k in t.leaves(v, ok):
        X.verify("add_entity", k, c, (X.fresh(k, c, "position"), X.fresh(k, c, "rotation"), X.fresh(k, c, "internal_origin_offset")))
    R.floor("operations", n + 1, 5)
