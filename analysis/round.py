"""One round of the collision loop of `PhysicsSystem::step`, as a state transition.

The state at the start of a round is what the loop's mus stand for. The search for the earliest
collision is a selection (a group of variables overwritten together under one condition), so a
round has two cases: nothing selected (every variable of the group keeps its initial value), or
the values of one witness (pair of entities, pair of colliders). Loops that treat every entity
once, each round touching only its own entity, are resolved pointwise."""
from forms import *
from loops import *
from step import Step


# ---------------------------------------------------------------- pointwise loops
class Pointwise:
    """a full walk in which round c writes maps only at one key k(c), k injective, and reads what it writes only there"""

    def __init__(self, rs, lp):
        self.rs, self.e, self.lp = rs, rs.e, lp
        e = self.e
        self.ok = {}
        self.why = None
        d = lp.driver()
        if d is None:
            self.why = "may leave early"
            self.c = None
            return
        self.c = d[0]
        self.c0 = lp.init(self.c)
        self.counters = lp.counters()
        self.nx = {}
        self.writes = {}        # mu -> [(path, key)]
        sub = self.sub = Subst(e, None, 1, rs.inner(lp))
        for m in lp.mus:
            if m is self.c or m in self.counters:
                continue
            nx = sub(lp.nxt(m))
            ch = stores(nx, m, 1, e)
            self.nx[m] = nx
            self.writes[m] = None if ch is None else [(p, None if k is None else sub(k)) for _, k, p, _ in ch]

    def shift(self, k):
        """key term -> (shape, offset) with k = shape[c + offset]"""
        if k is None:
            return None
        if k.op in ("aitem", "sitem"):
            o = self.off(k.args[1])
            return None if o is None else ((k.op, k.args[0].id), o)
        o = self.off(k)
        return None if o is None else (("int",), o)

    def off(self, x):
        """x = c + offset, all counters moving in step"""
        for c, i0 in self.counters.items():
            o = t.iadd(x, c, -1)
            if not occurs(o, lambda y: y in self.lp.mus):
                return t.iadd(o, t.iadd(i0, self.c0, -1))       # in terms of the driving counter
        return None

    def index(self, key, q):
        """driving counter of the round whose key is q, for key shape `key`"""
        (shape, o) = key
        if shape[0] in ("aitem", "sitem"):
            if q.op != shape[0] or q.args[0].id != shape[1]:
                return None
            return t.iadd(q.args[1], o, -1)
        return t.iadd(q, o, -1) if isint(q) else None

    def overlap(self, p, q):
        return all(a[:2] == b[:2] for a, b in zip(p, q))

    def keyfor(self, m, path):
        """the one key at which `path` of map m is written, as a shape; None: not written; False: not pointwise"""
        w = self.writes.get(m)
        if w is None:
            return False
        ks = {self.shift(k) for p, k in w if self.overlap(p, path)}
        if not ks:
            return None
        if len(ks) > 1 or None in ks:
            return False
        return ks.pop()

    def read(self, m, q, path):
        """value of map m at key q, path, after the loop; None if not resolvable"""
        if self.c is None:
            return None
        key = self.keyfor(m, path)
        if key is False:
            return None
        e = self.e
        if key is None:
            return e.mksel(self.lp.init(m), q, path)
        j = self.index(key, q)
        if j is None:
            return None
        (shape, o) = key
        own = t.iadd(self.c, o)
        if shape[0] in ("aitem", "sitem"):
            own = mk(shape[0], (t.S.all[shape[1]], own))
        v = self.sub(e.mksel(self.nx[m], own, path))
        # everything the round reads of what the loop changes must be its own
        bad = []
        mp = {}
        for c, i0 in self.counters.items():
            mp[c] = t.iadd(t.iadd(i0, self.c0, -1), j)

        def vis(y):
            if y.op == "sel" and y.args[0] in self.lp.mus:
                k2 = self.keyfor(y.args[0], y.attr)
                if k2 is False or (k2 is not None and self.shift(y.args[1]) != k2):
                    bad.append(y)
            return False
        occurs(v, vis)
        if bad:
            return None
        for y in self.lp.mus:
            if y not in self.counters:
                mp[y] = self.lp.init(y)
                # anything but an element of a map would carry over from round to round
        if occurs(v, lambda y: y in self.lp.mus and y not in self.counters and self.writes.get(y) is None):
            return None
        return subst(e, v, mp)


class Resolve:
    """reads of what finished loops left behind; `active` loops are still running"""

    def __init__(self, e, active=()):
        self.e, self.active = e, set(active)
        self.pw = {}
        self.plain = resolver(e)

    def inner(self, lp):
        r = Resolve(self.e, self.active | {lp.key} | set(lp.stack))
        return r.hook

    def hook(self, x):
        if x.op != "sel" or x.args[0].op != "mu":
            return None
        m = x.args[0]
        k = self.e.mu[m]["loop"]
        if k in self.active:
            return None
        p = self.pw.get(k)
        if p is None:
            p = self.pw[k] = Pointwise(self, Loop(self.e, k))
        r = p.read(m, x.args[1], x.attr)
        if r is None:
            r = self.plain(x)
        if r is None or r is x:
            return None
        return subst(self.e, r, None, 1, self.hook)


# ---------------------------------------------------------------- the search for the earliest collision
class Search:
    """the loops around the narrow-phase call and the variables they select"""

    def __init__(self, S, ev):
        e = self.e = S.e
        self.S, self.M, self.ev = S, S.M, ev
        self.iter = Loop(e, ev["loops"][0])
        self.loops = [Loop(e, k) for k in ev["loops"][1:]]
        if not self.loops:
            raise AnalysisError("the narrow phase is not called from a search loop")
        self.rs = Resolve(e, ev["loops"])
        self.sub = Subst(e, None, 1, self.rs.hook)
        self.R = self.sub(ev["ret"])
        self.cond = self.sub.b(ev["cond"])
        inner = self.loops[-1]
        self.drivers = [lp.driver() for lp in self.loops]
        if None in self.drivers:
            bad = [lp.where() for lp, d in zip(self.loops, self.drivers) if d is None]
            raise AnalysisError("the search for collisions can stop early: " + ", ".join(bad))
        # the group of selected variables, by (location, path)
        self.group = {}
        cs = inner.counters()
        for m in inner.mus:
            if m not in cs:
                self.group[m.attr[1:]] = m

    def chain(self, key):
        """mu of that location in every search loop, outermost first"""
        out = []
        for lp in self.loops:
            c = [m for m in lp.mus if m.attr[1:] == key]
            out.append(c[0] if c else None)
        return out

    # ------------------------------------------------ structure
    def entities(self):
        """list of live entities at the start of the step"""
        return self.e.project(self.M.arena(self.e, self.S.sys0, "ent"), prims.AL)

    def roles(self):
        """what the narrow phase is asked about: entity indices and collider items; raises when it is not two entities' colliders"""
        e, M = self.e, self.M
        self.L = self.entities()
        self.X = M.amap(e, M.system(self.iter.head), "ent")
        op = (M.d.fproj(M.ient, "orientation"),)
        cp = (M.d.fproj(M.ient, "colliders"),)
        out = []
        for ci, oi in ((0, 1), (3, 4)):
            o, c = self.R.args[oi], self.R.args[ci]
            k = o.args[1] if o.op == "sel" else None
            if k is None or k.op != "aitem" or k.args[0] is not self.L or o is not e.mksel(self.X, k, op):
                raise AnalysisError("the narrow phase is not given an entity's current orientation: " + t.show(o, 4)[:200])
            sset = self.sub(e.mksel(self.X, k, cp))
            it = c.args[1] if c.op == "sel" else None
            colmap = M.amap(e, M.system(self.iter.head), "col")
            if it is None or it.op != "sitem" or it.args[0] is not sset or c is not e.mksel(colmap, it, ()):
                raise AnalysisError("the narrow phase is not given a collider linked to that entity: " + t.show(c, 4)[:200])
            out.append((k, it))
        (self.k1, self.it1), (self.k2, self.it2) = out
        return out

    def coverage(self):
        """problems with: every pair of entities, every pair of their colliders, exactly once"""
        e = self.e
        bad = []
        lps = self.loops
        if len(lps) != 4:
            return ["the search is nested in %d loops, expected entity, entity, collider, collider" % len(lps)]
        outer, inner, c1, c2 = lps
        h = walks(e, outer, self.L)
        z = {0: self.k1.args[1], 1: self.k2.args[1]}
        oc, icn = self.drivers[0][0], self.drivers[1][0]
        if h is None:
            bad.append("the search does not start from every entity: " + outer.where())
        own = [i for i in z if z[i] is oc]
        if len(own) != 1:
            return bad + ["neither collider belongs to the entity of the outer search loop"]
        other = z[1 - own[0]]
        r = t.iadd(other, icn, -1)
        n = self.drivers[1][2]
        d = self.drivers[1]
        if d[1] == "count":
            lo = t.iadd(inner.init(icn), r)
            hi = t.iadd(n, r)
            N = self.drivers[0][2] if self.drivers[0][1] == "count" else None
            up = lo is t.iadd(oc, cint(1)) and (hi is N or N is None)
            down = lo is cint(0) and hi is oc
            if occurs(r, lambda y: y in inner.mus) or not (up or down):
                bad.append("the second entity runs from %s to %s, not over every pair once" % (t.show(lo, 3), t.show(hi, 3)))
        else:
            bad.append("the second entity is not found by an index over the same list: " + inner.where())
        sets = {}
        for lp, dr in ((c1, self.drivers[2]), (c2, self.drivers[3])):
            if dr[1] != "set" or lp.init(dr[0]) is not cint(0):
                bad.append("not every collider is tried: " + lp.where())
            else:
                sets[dr[0]] = self.sub(dr[2])
        for it in (self.it1, self.it2):
            c = it.args[1]
            if c not in sets or sets[c] is not it.args[0]:
                bad.append("a collider is not the current one of a walk over its entity's colliders")
        return bad

    def selection(self):
        """(U, {location: value}) : what is overwritten, under which condition, in a round of the innermost loop"""
        inner = self.loops[-1]
        self.vals, self.inits = {}, {}
        conds = {}
        bad = []
        for key, m in self.group.items():
            ch = self.chain(key)
            if None in ch:
                bad.append("a variable set by the search does not live through it: " + str(key[0]))
                continue
            for lo, hi, lp in zip(ch[1:], ch, self.loops):
                if self.loops[ch.index(lo)].init(lo) is not hi:
                    bad.append("search variable changed between its loops")
                nx = subst(self.e, lp.nxt(hi), {lo: hi}, lp.back)
                if nx is not hi:
                    bad.append("search variable changed outside the selection: " + t.show(nx, 3)[:120])
            nx = self.sub(inner.nxt(m))
            u = 0
            for c, l in t.leaves(nx):
                if l is not m:
                    u = t.bor(u, c)
            u = t.band(u, inner.back)
            conds[key] = u
            self.vals[key] = (m, nx)
            self.inits[key] = self.loops[0].init(ch[0])
        self.conds = conds
        return bad


class Round(Search):
    """a round of the collision loop with its two cases"""

    def __init__(self, M, S=None):
        S = S or Step(M)
        if len(S.collides) != 1:
            raise AnalysisError("expected one place that asks the narrow phase, found %d" % len(S.collides))
        Search.__init__(self, S, S.collides[0])
        e = self.e
        self.roles()
        self.cover = self.coverage()
        self.badsel = self.selection()
        if self.badsel:
            raise AnalysisError("the search for the earliest collision is not understood: " + "; ".join(self.badsel)[:300])
        # names for the witness
        w1, w2, a, b = (t.sym(n) for n in ("w1", "w2", "a", "b"))
        self.w1, self.w2 = w1, w2
        z1, z2 = self.k1.args[1], self.k2.args[1]
        mp = {}
        oc, ic = self.drivers[0][0], self.drivers[1][0]
        mp[oc] = w1 if z1 is oc else w2
        other = (z2, w2) if z1 is oc else (z1, w1)
        r = subst(e, t.iadd(other[0], ic, -1), mp)
        mp[ic] = t.iadd(other[1], r, -1)
        mp[self.it1.args[1]] = a
        mp[self.it2.args[1]] = b
        self.wmap = mp
        self.e1 = mk("aitem", (self.L, w1))
        self.e2 = mk("aitem", (self.L, w2))
        self.rs1 = Resolve(e, [self.iter.key])
        self.posef = M.d.fproj(M.ient, "orientation")
        self.lists, self.T = {}, None
        self.invariants()
        ws = self.ws = Subst(e, mp, 1, self.hook1)
        self.col = ws(self.sub(e.project(self.R, ("v", 1)))) if False else ws(self.R)
        self.hit = e.project(e.project(self.col, ("v", 1)), ("f", 0, 1, OPT + "#1"))
        cty = self.collision_type()
        self.n = self.part(self.hit, cty, "normal")
        self.p = self.part(self.hit, cty, "position")
        tm = e.project(self.hit, M.d.fproj(cty, "times"))
        rty = M.d.fields(cty)[M.d.field_index(cty, "times")]["t"]
        lo, hi = (e.project(tm, M.d.fproj(rty, n)) for n in ("min", "max"))
        nan = t.bor(t.bvar(mk("batom", (lo,), "isnan")), t.bvar(mk("batom", (hi,), "isnan")))
        self.times = (lo, hi)
        self.time = lo
        for x, k in ((self.n, "v"), (self.p, "v"), (lo, "s"), (hi, "s")):
            alg.setkind(x, k)
        self.ishit = t.bvar(mk("is", (self.col,), 1))
        self.proper = t.bnot(nan)
        self.tried = ws.b(self.cond)
        hs = M.system(self.iter.head)
        self.head = hs
        v1, v2 = self.vat(hs, self.e1), self.vat(hs, self.e2)
        self.approach = t.dot(t.sub(v1, v2), self.n)
        alg.setkind(self.approach, "s")
        self.closing = t.bnot(t.tobdd(t.flt(self.approach, EPS())))
        self.intime = t.tobdd(t.flt(self.time, num(1.0)))
        distinct = self.distinct = t.bnot(t.bor(e.keyeq(w1, w2), t.tobdd(t.ieq(w1, w2))))
        self.pcF = t.band(t.band(t.band(self.tried, self.ishit), t.band(self.proper, self.intime)), t.band(self.closing, distinct))
        outer = self.loops[0]
        self.pcN = t.bnot(t.tobdd(t.flt(t.fabs(S.dt), EPS())))
        self.mpF, self.mpN = {}, {}
        for key, (m, nx) in self.vals.items():
            top = self.chain(key)[0]
            u = self.conds[key]
            self.mpF[top] = restrict(ws(restrict(nx, u)), self.pcF)
            self.mpN[top] = self.inits[key]
        self.F = Subst(e, self.mpF, self.pcF, self.hook1)
        self.N = Subst(e, self.mpN, 1, self.hook1)

    keep_pose = False

    def hook1(self, x):
        """finished loops, and the movement still to be made in the rest of the step"""
        if self.keep_pose and x.op == "sel" and x.args[0].op == "mu" and x.attr and x.attr[0][:2] == self.posef[:2]:
            return None             # the pose at the time of impact, whatever it is
        r = self.rs1.hook(x)
        if r is not None:
            return r
        if x.op == "sel" and self.T is not None and x.args[0].op == "mu":
            f = self.lists.get((x.args[0], x.attr))
            if f:
                return t.mul(self.T, self.fld(self.M.system(self.iter.head), mk("aitem", (self.L, x.args[1])), f))
        return None

    def invariants(self):
        """lists kept beside the entities whose element i starts out as dt x (a velocity of entity i): they are taken to be
        (time left) x (that velocity) at the start of a round, which `step_back` proves of the end of the round"""
        e, M, it = self.e, self.M, self.iter
        j = t.sym("i")
        sub = Subst(e, None, 1, self.rs1.hook)
        key = mk("aitem", (self.L, j))
        start = St(dict(it.entry.mem), 1) if hasattr(it.entry, "mem") else None
        X0 = it.init(self.X)
        vel = {}
        for n in ("velocity", "angular_velocity"):
            v = sub(e.mksel(X0, key, (M.d.fproj(M.ient, n),)))
            alg.setkind(v, "v")
            vel[n] = v
        self.start = vel
        cand = {}
        reads = set()
        for b in [self.iter.nxt(m) for m in it.mus] + [x for lp in self.loops for m in lp.mus for x in (lp.nxt(m),)] + list(self.R.args):
            occurs(b, lambda y: reads.add((y.args[0], y.attr)) if y.op == "sel" and y.args[0].op == "mu" and y.args[0] in it.mus and y.args[0] is not self.X else False)
        for m, path in sorted(reads, key=lambda r: (r[0].id, str(r[1]))):
            v = sub(e.mksel(it.init(m), j, path))
            if v.op in ("sel", "agg") or occurs(v, lambda y: y is UNINIT):
                continue
            for n in vel:
                if v is t.mul(self.S.dt, vel[n]) or alg.case_eq(e, v, t.mul(self.S.dt, vel[n])) is None:
                    cand[(m, path)] = n
                    break
        self.lists = cand
        self.Ts = [m for m in it.mus if it.init(m) is self.S.dt]
        self.T = self.Ts[0] if self.Ts else None

    def collision_type(self):
        ty = self.M.d.types[self.S.cf["locals"][0][0]]
        if ty.get("path") != OPT:
            raise AnalysisError("the narrow phase does not return an Option")
        return ty["args"][0]

    def part(self, v, tid, *names):
        for n in names:
            v = self.e.project(v, self.M.d.fproj(tid, n))
            tid = self.M.d.fields(tid)[self.M.d.field_index(tid, n)]["t"]
        return v

    def fld(self, sysv, k, *names):
        x = self.M.efield(self.e, sysv, k, *names)
        kd = {"velocity": "v", "angular_velocity": "v", "position": "v", "total_mass": "s", "rotation": "q", "prepped_moment_of_inertia": "m"}.get(names[-1])
        if kd:
            alg.setkind(x, kd)
        return x

    def vat(self, sysv, k, p=None):
        """velocity of entity k's material at the contact point"""
        p = self.p if p is None else p
        return t.add(self.fld(sysv, k, "velocity"), t.cross(self.fld(sysv, k, "angular_velocity"), t.sub(p, self.fld(sysv, k, "orientation", "position"))))

    def fix(self, F, x):
        """substitution and resolution until nothing changes: what a finished loop leaves is in terms of the case's values"""
        for _ in range(6):
            y = F(x) if isinstance(x, t.T) else F.b(x)
            if y is x or (not isinstance(x, t.T) and y == x):
                return x
            x = y
        return x

    def found(self, x):
        return self.fix(self.F, x)

    def none(self, x):
        return self.fix(self.N, x)

    def cases(self, j):
        """(who, list index, condition): the two entities that hit each other and any other one"""
        def apart(a, b):
            return t.bnot(t.bor(self.e.keyeq(a, b), t.tobdd(t.ieq(a, b))))
        other = t.band(self.distinct, t.band(apart(j, self.w1), apart(j, self.w2)))
        return [("the first entity", self.w1, self.distinct), ("the second entity", self.w2, self.distinct), ("any other entity", j, other)]

    # ------------------------------------------------ ends of a round
    def backsys(self):
        return self.M.system(self.iter.backst)

    def ends(self, F):
        """[(condition, state)] in which a round can end without another one, in the case of substitution F"""
        out = []
        for s in self.iter.info["exits"]:
            c = self.fix(F, s.pc)
            if c != 0:
                out.append((c, s))
        return out


def EPS():
    return t.cflt("1e-06")


class Impact(Round):
    """the response to the selected collision, with the poses at the time of impact, the masses and the inverse inertias named"""

    def __init__(self, M, S=None):
        Round.__init__(self, M, S)
        e = self.e
        self.keep_pose = True
        self.F = Subst(e, self.mpF, self.pcF, self.hook1)
        self.back = self.backsys()
        self.g = Subst(e, None, self.distinct)
        self.names = {}
        self.who = []
        for i, k in ((1, self.e1), (2, self.e2)):
            x = self.g(self.found(self.fld(self.back, k, "orientation", "position")))
            q = self.g(self.found(self.fld(self.back, k, "orientation", "rotation")))
            I = mk("mm", (mk("mm", (mk("qmat", (q,)), self.fld(self.head, k, "prepped_moment_of_inertia"))), mk("transpose", (mk("qmat", (q,)),))))
            ok = t.bvar(mk("batom", (I,), "invertible"))
            z = [y for y in t.S.all if y.op == "zeros"]
            d = dict(k=k, x=V("x%d" % i), m=S_("m%d" % i), J=MM("J%d" % i), v=V("v%d" % i), w=V("w%d" % i), q=q)
            self.names[self.fld(self.head, k, "total_mass")] = d["m"]
            self.names[self.fld(self.head, k, "velocity")] = d["v"]
            self.names[self.fld(self.head, k, "angular_velocity")] = d["w"]
            self.names[x] = d["x"]
            if z:
                self.names[ite(ok, mk("minv", (I,)), z[0])] = d["J"]
            d["ok"], d["I"], d["xt"] = ok, I, x
            self.who.append(d)
        self.nn = V("n")
        alg.UNIT.add(("t", self.nn.id))
        self.pp = V("p")
        self.names[self.n] = self.nn
        self.names[self.p] = self.pp
        self.apart = 1
        for d in self.who:
            d["v'"] = self.name(self.after(d["k"], "velocity"))
            d["w'"] = self.name(self.after(d["k"], "angular_velocity"))
            alg.setkind(d["v'"], "v")
            alg.setkind(d["w'"], "v")

    def name(self, x):
        """x with the named quantities in it replaced by their names: what is shown holds for any values of them"""
        return subst(self.e, x, self.names)

    def nameb(self, c):
        return Subst(self.e, self.names).b(c)

    def after(self, k, *n):
        return self.g(self.found(self.fld(self.back, k, *n)))

    def speed(self, d, v=None, w=None):
        return t.add(v or d["v"], t.cross(w or d["w"], t.sub(self.pp, d["x"])))


def S_(n):
    return globals()["S"](n)


# ---------------------------------------------------------------- naming by proof
def parts(roots, e=None):
    """every term in the given ones, conditions included, inner ones first"""
    seen, out = set(), []
    todo = list(roots)
    bs = set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        todo.extend(x.args)
        if x.op in ("ite", "cond") and x.attr > 1 and x.attr not in bs:
            bs.add(x.attr)
            todo.extend(t.bsupport(x.attr))
    return sorted(out, key=lambda x: x.id)


class Naming:
    """replaces, in a set of values, every part that is shown equal to a reference by one symbol, so that what is
    compared later holds for any value of it"""

    def __init__(self, e, vals, pc=1, budget=8000):
        self.e, self.vals, self.pc, self.budget = e, dict(vals), pc, budget
        self.refs = {}

    def sub(self, x):
        return subst(self.e, x, self.map) if isinstance(x, t.T) else Subst(self.e, self.map).b(x)

    def equal(self, a, b):
        if a is b:
            return True
        try:
            return alg.limited(self.budget, alg.case_eq, self.e, a, b, self.pc) is None
        except (alg.Budget, RuntimeError):
            return False

    def samecases(self, A, x, y):
        """two case distinctions with the same value in every case, however they are nested"""
        lx, ly = t.leaves(x), t.leaves(y)
        if len(lx) * len(ly) > 400:
            return False
        pc = A.canon(self.pc)
        for c, a in lx:
            for d, b in ly:
                if a is not b and not A.eq(a, b) and t.band(t.band(A.canon(c), A.canon(d)), pc):
                    return False
        return True

    def name(self, ref, sym, kd):
        """how many parts were recognised as `ref` (or its opposite)"""
        alg.setkind(ref, kd)
        alg.setkind(sym, kd)
        self.map = {}
        n = 0
        ops = {"s": ("add", "mul", "div", "dot", "norm", "neg", "ite", "fmin", "fmax", "abs"), "v": ("add", "mul", "div", "neg", "cross", "mm", "normalize", "ite", "agg")}[kd]
        A = Alg(self.e)
        try:
            R = alg.limited(self.budget, A.nf, ref)
        except alg.Budget:
            return 0
        O = alg.sscale(R, alg.F(-1)) if kd == "s" else alg.vscale(R, {(): alg.F(-1)})
        big = set()
        for x in parts(self.vals.values()):
            if any(y.id in big for y in x.args):
                big.add(x.id)
                continue
            if x.op not in ops or A.kind(x) != kd:
                continue
            try:
                z = alg.limited(self.budget, A.nf, x)
            except alg.Budget:
                big.add(x.id)
                continue
            if z == R:
                self.map[x] = sym
            elif z == O:
                self.map[x] = t.neg(sym)
            elif x.op == "ite" and ref.op == "ite" and self.samecases(A, x, ref):
                self.map[x] = sym
            elif x.op == "ite" and ref.op == "ite" and self.samecases(A, x, t.neg(ref)):
                self.map[x] = t.neg(sym)
            else:
                continue
            n += 1
        if n:
            self.vals = {k: self.sub(v) for k, v in self.vals.items()}
            self.pc = self.sub(self.pc)
        return n
