"""Falling asleep at the end of a step."""
from contact import *

FIELDS = ("asleep", "falling_asleep", "falling_asleep_time", "velocity", "angular_velocity")


def run(M, R):
    R.expl = ("what PhysicsSystem::step does after its last round, as the state of an arbitrary entity at the end in terms of its state after that round, in every way the rounds can end; "
              "conditions compared as BDDs up to the order theory of their operands, values in normal form; neighbour sets by their members")
    Z = Contact(M)
    e, S, it = Z.e, Z.S, Z.iter
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    dt = S.dt
    k = mk("aitem", (Z.L, t.sym("j")))
    fin = M.system(S.s)
    rs = Resolve(e, [it.key])
    sub = Subst(e, None, 1, rs.hook)
    fin_ = {n: sub(Z.fld(fin, k, n)) for n in FIELDS}
    thr = e.project(S.sys0, M.d.fproj(M.sys, "energy_sleep_threshold"))
    tthr = e.project(S.sys0, M.d.fproj(M.sys, "sleep_time_threshold"))
    n = 0
    for mode, name in ((Z.F, "hit"), (Z.N, "none")):
        for c, s in Z.ends(mode):
            n += 1
            end(R, Z, mode, c, s, k, fin_, thr, tthr, name)
    R.check(n > 0, "ends", "no way in which the rounds end was found", None)
    # a step that takes no time
    short = t.bnot(Z.pcN)
    for f in FIELDS + ("neighbors",):
        a = Subst(e, None, short)(M.efield(e, fin, k, f))
        R.check(a is M.efield(e, S.sys0, k, f), "short:" + f, "a step that takes no time changes %s" % f, "a step shorter than EPSILON leaves %s alone" % f)
    neighbours(R, Z, rs)
    contacts(R, Z)


def end(R, Z, mode, c, s, k, fin, thr, tthr, name):
    e, M = Z.e, Z.M
    sys1 = M.system(s)
    dt = Z.S.dt
    pick = lambda x: Z.fix(mode, Subst(e, None, s.pc)(x))
    key = lambda w: "%s:%s" % (w, name)
    B = {f: pick(Z.fld(sys1, k, f)) for f in FIELDS}
    F = {f: pick(fin[f]) for f in FIELDS}
    for f in ("velocity", "angular_velocity"):
        alg.setkind(B[f], "v")
        alg.setkind(F[f], "v")
    for f in ("falling_asleep_time",):
        alg.setkind(B[f], "s")
        alg.setkind(F[f], "s")
    q = pick(Subst(e, None, 1, Resolve(e, [Z.iter.key]).hook)(Z.fld(sys1, k, "orientation", "rotation")))
    alg.setkind(q, "q")
    m = Z.fld(sys1, k, "total_mass")
    J = Z.fld(sys1, k, "prepped_moment_of_inertia")
    v, w = B["velocity"], B["angular_velocity"]
    small = t.band(t.tobdd(t.flt(t.norm(v), EPS())), t.tobdd(t.flt(t.norm(w), EPS())))
    I = mk("mm", (mk("mm", (qmat(q), J)), transpose(qmat(q))))
    E = t.add(t.div(t.dot(t.mul(m, v), v), num(2.0)), t.div(t.dot(mk("mm", (I, w)), w), num(2.0)))
    inf = t.bvar(mk("batom", (m,), "isinf"))
    over = t.bite(inf, t.bite(small, e_gt(num(0.0), thr), e_gt(t.cflt("inf"), thr)), e_gt(E, thr))
    a0, f0, t0 = t.tobdd(B["asleep"]), t.tobdd(B["falling_asleep"]), B["falling_asleep_time"]
    time = ite(f0, t.add(t0, dt), t0)
    due = t.bnot(t.bite(f0, e_gt(tthr, t.add(t0, dt)), e_gt(tthr, t0)))
    drowsy = t.band(t.bnot(a0), t.bnot(over))
    pc = c
    aw = t.bnot(a0)
    cond(R, Z, key("asleep"), F["asleep"], t.bor(a0, t.band(drowsy, due)), pc, "an entity is asleep at the end exactly when it was before or its energy is not over the threshold and has not been for sleep_time_threshold", aw)
    cond(R, Z, key("tired"), F["falling_asleep"], t.bite(a0, f0, t.bnot(over)), pc, "an awake entity counts as falling asleep exactly when its energy is not over the threshold", aw)
    g = Subst(e, None, t.band(pc, aw))
    over, drowsy = g.b(over), t.band(aw, g.b(drowsy))
    F["falling_asleep_time"] = g(F["falling_asleep_time"])
    same(R, e, key("time:awake"), F["falling_asleep_time"], num(0.0), "too much energy starts the time over", pc=t.band(pc, t.band(t.bnot(a0), over)))
    same(R, e, key("time:tired"), F["falling_asleep_time"], time, "the time spent falling asleep grows by dt per step, from the step after the first", pc=t.band(pc, drowsy))
    for f in ("velocity", "angular_velocity"):
        same(R, e, key("rest:" + f), F[f], zero3(), "a sleeping entity has no " + f, pc=t.band(pc, a0))
        same(R, e, key("keep:" + f), F[f], B[f], "falling asleep or not leaves the %s of an entity that was awake as it is" % f, pc=t.band(pc, t.bnot(a0)))


def e_gt(a, b):
    return t.tobdd(t.flt(b, a))


def cond(R, Z, key, got, want, pc, what, split):
    d = None
    for c in (split, t.bnot(split)):
        g = Subst(Z.e, None, t.band(pc, c))
        d = d or order.equivalent(Z.e, g.b(t.tobdd(got)), g.b(want), t.band(pc, c))
    R.check(d is None, key, "%s: differs when %s" % (what, t.showb(d, 4)[:300] if isinstance(d, int) else d), what)


# ---------------------------------------------------------------- neighbours
class Sets:
    """membership in the neighbour set of an arbitrary entity, through stores and finished loops"""

    def __init__(self, Z, path, stop):
        self.Z, self.e, self.path, self.stop = Z, Z.e, path, stop

    def inmap(self, X, q, h):
        e = self.e
        if X.op == "ite":
            return t.bite(X.attr, self.inmap(X.args[0], q, h), self.inmap(X.args[1], q, h))
        if X.op == "store":
            if X.attr == self.path:
                return t.bite(e.keyeq(X.args[1], q), self.members(X.args[2], h), self.inmap(X.args[0], q, h))
            if not X.attr:
                raise AnalysisError("whole entities are replaced at the end of a step")
            return self.inmap(X.args[0], q, h)
        if X.op == "mu" and X not in self.stop:
            lp = Loop(e, e.mu[X]["loop"])
            if self.path not in (e.mupaths.get(X) or ()):
                return self.inmap(lp.init(X), q, h)
            d = lp.driver()
            ch = [r for r in (stores(lp.nxt(X), X, 1, e) or [(1, None, self.path, None)]) if r[2] == self.path and t.band(r[0], lp.back)]
            if d and d[1] == "set" and lp.init(d[0]) is cint(0) and len(ch) == 1 and t.bimp(lp.back, ch[0][0]):
                y = self.added(ch[0][3], e.mksel(X, ch[0][1], self.path))
                item = mk("sitem", (d[2], d[0]))
                fixed = lambda z: z is not None and not occurs(z, lambda u: u in lp.mus)
                # every member of the set gets y, or one entity gets every member
                for who, what, a, b in ((ch[0][1], y, q, h), (y, ch[0][1], h, q)):
                    if who is item and fixed(what) and fixed(d[2]):
                        hit = t.band(t.bvar(mk("contains", (d[2], a))), e.keyeq(what, b))
                        return t.bor(self.inmap(lp.init(X), q, h), hit)
            raise AnalysisError("what %s does to the neighbours of entities is not understood" % lp.where())
        return t.bvar(mk("contains", (e.mksel(X, q, self.path), h)))

    def added(self, v, old):
        return v.args[1] if v.op == "sins" and v.args[0] is old else None

    def members(self, v, h):
        e = self.e
        if v.op == "ite":
            return t.bite(v.attr, self.members(v.args[0], h), self.members(v.args[1], h))
        if v.op == "sins":
            return t.bor(e.keyeq(v.args[1], h), self.members(v.args[0], h))
        if v.op == "srem":
            return t.band(t.bnot(e.keyeq(v.args[1], h)), self.members(v.args[0], h))
        if v.op == "mu" and v not in self.stop:
            lp = Loop(e, e.mu[v]["loop"])
            d = lp.driver()
            nx = lp.nxt(v)
            y = self.added(nx, v)
            if d and d[1] == "set" and lp.init(d[0]) is cint(0) and y is mk("sitem", (d[2], d[0])):
                return t.bor(self.members(lp.init(v), h), t.bvar(mk("contains", (d[2], h))))
            raise AnalysisError("how the neighbours are put together in %s is not understood" % lp.where())
        if v.op == "sel" and v.attr == self.path:
            return self.inmap(v.args[0], v.args[1], h)
        return t.bvar(mk("contains", (v, h))) if v.op != "emptyset" else 0


def contactlist(Z, neigh):
    """path of the per-entity list of contacts: starts empty, and a round of collisions inserts into it"""
    out = set()
    for m in Z.iter.mus:
        nx = Z.iter.nxt(m)
        for c, k, p, v in stores(nx, m, 1, Z.e) or ():
            if v is not None and v.op == "sins":
                out.add((m, p))
    if len(out) != 1:
        raise AnalysisError("expected one list of the contacts of each entity, found %d" % len(out))
    return out.pop()


def neighbours(R, Z, rs):
    e, M, it = Z.e, Z.M, Z.iter
    path = (M.d.fproj(M.ient, "neighbors"),)
    cm, cp = contactlist(Z, path)
    Z.contacts = (cm, cp)
    fin = M.amap(e, M.system(Z.S.s), "ent")
    X1 = {M.amap(e, M.system(s), "ent") for s in it.info["exits"]}
    # the loops after the rounds that write neighbour sets
    writers = []
    seen = set()

    def down(X):
        if X in seen:
            return
        seen.add(X)
        if X.op in ("ite", "store"):
            for y in X.args[:2] if X.op == "ite" else X.args[:1]:
                down(y)
        elif X.op == "mu" and e.mu[X]["loop"] != it.key and it.key not in Loop(e, e.mu[X]["loop"]).stack:
            lp = Loop(e, e.mu[X]["loop"])
            if path in (e.mupaths.get(X) or ()):
                writers.append((lp, X))
            down(lp.init(X))
    down(fin)
    R.check(len(writers) == 1, "neighbours:where", "the neighbours of entities are written in %d loops after the rounds" % len(writers), "one walk after the rounds records neighbours")
    if len(writers) != 1:
        return
    lp, X = writers[0]
    o = walks(e, lp, Z.L)
    if o is None:
        o = through(e, Z, lp)
    R.check(o is not None, "neighbours:all", "%s does not treat every entity" % lp.where(), "every entity is treated")
    if o is None:
        return
    sub = Subst(e, None, 1, Resolve(e, [it.key, lp.key]).hook)
    nx = sub(lp.nxt(X))
    q, h = t.sym("q"), t.sym("h")
    W = Sets(Z, path, set(lp.mus))
    got = sub.b(W.inmap(nx, q, h))
    ap = (M.d.fproj(M.ient, "asleep"),)
    falls = t.band(t.tobdd(sub(e.mksel(nx, o, ap))), t.bnot(t.tobdd(sub(e.mksel(X, o, ap)))))
    # contacts of that entity, as the rounds left them
    cands = {y.args[0] for b in (got,) for y in t.bsupport(b) if y.op == "contains" and y.args[0].op == "sel" and y.args[0].attr == cp}
    ok = [C for C in cands if C.args[1] is driverindex(lp, o)]
    R.check(len(ok) == 1, "neighbours:contacts", "what an entity that falls asleep rests on is not taken from its own list of contacts", "contacts come from the entity's own list")
    if len(ok) != 1:
        return
    C = ok[0]
    has = lambda s, x: t.bvar(mk("contains", (s, x)))
    new = t.band(falls, t.bor(t.band(e.keyeq(q, o), has(C, h)), t.band(has(C, q), e.keyeq(h, o))))
    want = t.bor(has(e.mksel(X, q, path), h), new)
    th = order.theory(Alg(e), [got, want])
    lost = t.band(t.band(want, t.bnot(got)), th)
    # the round takes place, and nothing panics
    ctx = t.band(lp.back, th)
    lost = t.band(lost, ctx)
    odd = t.band(t.band(got, t.bnot(want)), ctx)
    # equal handles are equal members
    lost, odd = (congr(e, x, q, h, o, C, X, path) for x in (lost, odd))
    R.check(lost == 0, "neighbours:lost", "a neighbour is lost or not recorded when an entity falls asleep: when %s" % t.showb(lost, 4)[:300], "falling asleep keeps earlier neighbours and records every contact, both ways")
    R.check(odd == 0, "neighbours:odd", "an entity becomes a neighbour that was not in contact: when %s" % t.showb(odd, 4)[:300], "nothing else becomes a neighbour")


def congr(e, x, q, h, o, C, X, path):
    """drop cases that contradict equality of handles"""
    if x == 0:
        return 0
    has = lambda s, y: t.bvar(mk("contains", (s, y)))
    for a, b in ((q, o), (h, o)):
        eq = e.keyeq(a, b)
        for s in (C, e.mksel(X, q, path), e.mksel(X, o, path)):
            x = t.band(x, t.bor(t.bnot(eq), t.bnot(xor(has(s, a), has(s, b)))))
    eq = e.keyeq(q, o)
    for y in (h, o, q):
        x = t.band(x, t.bor(t.bnot(eq), t.bnot(xor(has(e.mksel(X, q, path), y), has(e.mksel(X, o, path), y)))))
    return x


def xor(a, b):
    return t.bor(t.band(a, t.bnot(b)), t.band(b, t.bnot(a)))


def driverindex(lp, o):
    return o.args[1]


def through(e, Z, lp):
    """walk by index over a list with one element per entity"""
    return None


def contacts(R, Z):
    """which entities count as resting on each other"""
    e, it = Z.e, Z.iter
    m, p = Z.contacts
    h = t.sym("h")
    W = Sets(Z, p, set(it.mus))
    j = t.sym("j")
    vals = {}
    for who, w, pcw in Z.cases(j):
        g = Subst(e, None, pcw)
        old = e.mksel(m, w, p)
        got = W.members(g(Z.found(e.mksel(it.nxt(m), w, p))), h)
        other = {Z.w1: Z.e2, Z.w2: Z.e1}.get(w)
        base = t.bvar(mk("contains", (old, h)))
        if other is None:
            R.check(t.band(xor(got, base), pcw) == 0, "contact:else", "a collision changes what a third entity rests on", "a collision changes only what the two entities rest on")
            continue
        eq = e.keyeq(other, h)
        diff = t.band(t.band(xor(got, base), t.bnot(eq)), pcw)
        R.check(diff == 0, "contact:odd:" + str(w.attr), "%s comes to rest on something else than what it hit" % who, "%s can only come to rest on what it hit" % who)
        c = t.bcons(t.band(got, 1), t.band(t.band(eq, t.bnot(base)), pcw))
        vals[w] = c
    a, b = vals[Z.w1], vals[Z.w2]
    R.check(t.band(xor(a, b), t.band(Z.distinct, Z.pcF)) == 0, "contact:both", "two entities do not come to rest on each other mutually", "resting on each other is mutual")
    Z.V["rest"] = t.frombdd(Subst(e, None, Z.massive).b(Z.nameb(Z.g.b(a))))
    Z.layers()
    got = t.tobdd(Z.NM.vals["rest"])
    want = t.tobdd(t.flt(t.fabs(Z.an), EPS()))
    missing = [w for w, c in Z.seen[:8] if not c]
    d = order.equivalent(e, got, want, t.band(Z.massive, t.tobdd(t.flt(num(0.0), Z.Kn))))
    R.check(d is None, "contact:when", "two entities count as resting on each other under another condition than a relative normal speed below EPSILON after the impact: differs when %s%s" % (t.showb(d, 4)[:250] if isinstance(d, int) else d, " (not recognised: %s)" % ", ".join(missing) if missing else ""),
            "two entities rest on each other when their contact points have no relative normal speed (below EPSILON) after the impact")
