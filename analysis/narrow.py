"""The narrow phase: `collide` run on two colliders of known types, and reference values for its results.

The references work over the reals: no operand is NaN (an empty range is a condition, not a NaN), `a <= b` is the
negation of `b < a`, minima and maxima are choices. The values compared are those of the code after the same
normalisation, so how a comparison is written does not matter."""
from forms import *
from loops import *
from step import collide_fn


def clean(e, extra=None):
    """Subst to the reals: NaN does not occur, infinities are only the constants and what is computed from them"""
    A = Alg(e)

    def big(x):
        """1 / -1 for an infinite constant"""
        if x.op == "neg":
            return -big(x.args[0])
        return {"inf": 1, "-inf": -1}.get(x.attr, 0) if x.op == "f" else 0

    def inf(s):
        return INF() if s > 0 else NINF()

    def arith(x):
        """an operation with infinite operands; the finite ones are taken to be finite, divisors not to be zero"""
        if x.op not in ("add", "mul", "div", "lt") or x.attr == "i":
            return None
        a, b = x.args
        i, j = big(a), big(b)
        if x.op == "lt" and not i and not j and a.op != "ite" and b.op != "ite":
            # sums of positive terms and the like
            try:
                c = alg.limited(3000, A.canon, t.bvar(x))
            except alg.Budget:
                return None
            return t.frombdd(c) if c < 2 else None
        if not i and not j:
            return None
        if x.op == "lt":
            return None if "ite" in (a.op, b.op) else t.TRUE if i < j else t.FALSE
        if x.op == "add":
            return None if i and j and i != j else inf(i or j)
        if x.op == "div" and j:
            return None if i else num(0.0)
        if i and j:
            return inf(i * j)
        o = b if i else a
        s = i or j
        return ite(lt(o, num(0.0)), inf(-s), inf(s))

    def each(x):
        """infinite in some cases only: taken case by case"""
        if x.op in ("add", "mul", "div", "lt") and x.attr != "i" and any(y.op == "ite" for y in x.args):
            ls = [t.leaves(y) for y in x.args]
            if len(ls[0]) * len(ls[1]) <= 64 and any(big(y) for l in ls for _, y in l):
                if x.op == "lt":
                    r = 0
                    for c, y in ls[0]:
                        for d, z in ls[1]:
                            if t.band(c, d):
                                r = t.bor(r, t.band(t.band(c, d), t.tobdd(one(t.flt(y, z)))))
                    return t.frombdd(r)
                r = None
                f = {"add": t.add, "mul": t.mul, "div": t.div}[x.op]
                for c, y in ls[0]:
                    for d, z in ls[1]:
                        if t.band(c, d):
                            v = one(f(y, z))
                            r = v if r is None else ite(t.band(c, d), v, r)
                return r
        return None

    def one(x):
        r = arith(x)
        return x if r is None else r

    def hook(x):
        if x.op == "batom" and x.attr == "isnan" and x.args[0].op != "ite" and x.args[0].attr != "nan":
            return t.FALSE
        if x.op == "le" and x.attr == "f":
            return t.frombdd(t.bnot(t.tobdd(hook2(t.flt(x.args[1], x.args[0])))))
        if x.op in ("fmin", "fmax"):
            a, b = x.args
            c = t.tobdd(hook2(t.flt(a, b)))
            return ite(c, a, b) if x.op == "fmin" else ite(c, b, a)
        r = arith(x)
        if r is None:
            r = each(x)
        if r is None and extra:
            r = extra(x)
        return r

    def hook2(x):
        r = hook(x)
        return x if r is None else r
    return Twice(Subst(e, None, 1, hook))


class Twice:
    """a comparison of choices becomes a choice of comparisons, which are looked at again"""

    def __init__(self, sub):
        self.sub = sub

    def __call__(self, x, f=None):
        for i in range(6):
            y = (f or self.sub)(x)
            if y is x or y == x:
                break
            x = y
        return x

    def b(self, n):
        return self(n, self.sub.b)


def lt(a, b):
    return t.tobdd(t.flt(a, b))


def EPS():
    return num(1e-06)


INF = lambda: t.cflt("inf")
NINF = lambda: t.cflt("-inf")


class Rng:
    """a range of times: a condition for being empty, and two ends"""

    def __init__(self, empty, lo, hi):
        self.empty, self.lo, self.hi = empty, lo, hi

    @staticmethod
    def ordered(a, b):
        c = lt(a, b)
        return Rng(0, ite(c, a, b), ite(c, b, a))

    @staticmethod
    def all():
        return Rng(0, NINF(), INF())

    @staticmethod
    def none():
        return Rng(1, num(0.0), num(0.0))

    def choose(c, a, b):
        return Rng(t.bite(c, a.empty, b.empty), ite(c, a.lo, b.lo), ite(c, a.hi, b.hi))

    def meet(self, o):
        lo = ite(lt(o.lo, self.lo), self.lo, o.lo)
        hi = ite(lt(self.hi, o.hi), self.hi, o.hi)
        return Rng(t.bor(t.bor(self.empty, o.empty), lt(hi, lo)), lo, hi)

    def hull(self, o):
        return Rng(0, ite(lt(self.lo, o.lo), self.lo, o.lo), ite(lt(o.hi, self.hi), self.hi, o.hi))


UNITTIME = lambda: Rng(0, num(0.0), num(1.0))


def roots(a, b, c):
    """times at which a x^2 + b x + c <= 0, a not negative; terms below EPSILON count as none"""
    a0, b0 = lt(t.fabs(a), EPS()), lt(t.fabs(b), EPS())
    det = t.sub(t.mul(b, b), t.mul(num(4.0), t.mul(a, c)))
    sq = mk("sqrt", (det,))
    d2 = t.mul(num(2.0), a)
    two = Rng.ordered(t.div(t.sub(sq, b), d2), t.div(t.sub(t.neg(b), sq), d2))
    one = t.div(t.mul(num(-0.5), b), a)
    tol = t.mul(EPS(), t.fabs(a))
    quad = Rng.choose(lt(det, t.neg(tol)), Rng.none(), Rng.choose(lt(det, tol), Rng(0, one, one), two))
    z = t.div(t.neg(c), b)
    side = Rng.choose(lt(b, num(0.0)), Rng(0, z, INF()), Rng(0, NINF(), z))
    const = Rng.choose(lt(c, EPS()), Rng.all(), Rng.none())
    return Rng.choose(a0, Rng.choose(b0, const, side), quad)


def overlap(lo, hi, olo, ohi, v):
    """times at which [lo, hi] and [olo, ohi] + v x overlap; olo/ohi may be infinite"""
    still = lt(t.fabs(v), EPS())
    at = Rng(0, lo, hi).meet(Rng(0, olo, ohi))
    q = lambda x, y: t.div(t.sub(x, y), v)
    moving = Rng.ordered(q(lo, olo), q(hi, olo)).hull(Rng.ordered(q(lo, ohi), q(hi, ohi)))
    return Rng.choose(still, Rng.choose(at.empty, Rng.none(), Rng.all()), moving)


class Pair:
    """`collide` on two objects of the given types"""

    def __init__(self, M, R, T1, T2, swap=False, over_a={}, over_b={}, at={}, peel=8, onret=None):
        self.M, self.R = M, R
        cf = self.cf = collide_fn(M)
        tids = {p.split("::")[-1]: i["tid"] for p, i in M.ctraits.items()}
        pick = lambda n: [v for k, v in sorted(tids.items()) if n in k]
        for T in (T1, T2):
            if len(pick(T)) != 1:
                raise AnalysisError("expected one collider type named %s, found %d" % (T, len(pick(T))))
        self.a, self.b = Obj(M, pick(T1)[0], "A", **over_a), Obj(M, pick(T2)[0], "B", **over_b)
        otid = M.d.types[cf["locals"][2][0]]["to"]
        self.s1, self.e1, self.s2, self.e2 = os_ = [Obj(M, otid, n) for n in ("s1", "e1", "s2", "e2")]
        # the origin of an entity's local space does not move within a step
        self.e1.v = self.e1.set("internal_origin_offset", self.s1.get("internal_origin_offset"))
        self.e2.v = self.e2.set("internal_origin_offset", self.s2.get("internal_origin_offset"))
        for o in os_:
            alg.setkind(o.get("rotation"), "q")
            for n in ("position", "internal_origin_offset"):
                alg.setkind(o.get(n), "v")
        # where the collider's own origin is in the world: a change of variables, to keep the formulas small
        self.at = {}
        for o, ob, n in ((self.s1, self.a, "A0"), (self.e1, self.a, "A1"), (self.s2, self.b, "B0"), (self.e2, self.b, "B1")):
            c = next((f for f in ("center", "position") if f in ob.names), None)
            P = at[n] if n in at else V(n)
            self.at[n] = P
            v = t.sub(P, rot(o.get("rotation"), t.add(ob.get(c), o.get("internal_origin_offset"))))
            alg.setkind(v, "v")
            o.v = o.set("position", v)
        x, y = [self.a.ref, self.s1.ref, self.e1.ref], [self.b.ref, self.s2.ref, self.e2.ref]
        self.e, self.s, self.r = call(M, R, cf, y + x if swap else x + y, [self.a, self.b] + os_, peel=peel, onret=onret and (lambda *x: onret(self, *x)))
        self.objs = [self.a, self.b] + os_
        self.T1, self.T2 = T1, T2
        self.clean = clean(self.e)

    def compare(self, tag, T, pos, nrm):
        """obligations: the result is a collision exactly when the range of times T is not empty, at its start, at pos(time) with
        normal nrm(time)"""
        e, R, C = self.e, self.R, self.clean
        self.start(tag)
        h, tm, p, n = self.parts()
        self.matches(tag, C.b(h), C(tm), C(p), C(n), T, None, pos, nrm)

    def start(self, tag):
        known_calls(self.R, self.e, tag + "known", tag)
        unchanged(self.R, self.s, self.objs, tag + "args", "collide")

    def matches(self, tag, h, tm, p, n, T, side, pos, nrm, N=None, R=None):
        """there is a hit (h) exactly when T is not empty and side(time) holds, at the start of T, at pos(time) with normal nrm(time);
        side gives a condition under which there must be a hit, and one under which there may be one"""
        e, R, C = self.e, R or self.R, self.clean
        want, lo = C.b(t.bnot(T.empty)), C(T.lo)
        if N is None:
            N = Times(e, t.leaves(tm, h), t.leaves(lo, want), conds=(h, want))
            h, tm, p, n = N.b(h), N(tm), N(p), N(n)
        h2, must, lo = bycases(e, h), N.b(want), N(lo)
        may = must
        if side is not None:
            cases = [(c, C(x)) for c, x in t.leaves(lo, must)]
            must = may = 0
            for c, leaf in cases:
                u, v = side(leaf)
                must, may = t.bor(must, t.band(c, N.b(C.b(u)))), t.bor(may, t.band(c, N.b(C.b(v))))
        if may == must:
            d = order.equivalent(e, h2, must, N.facts)
        else:
            d = order.equivalent(e, t.bor(must, h2), h2, N.facts) or order.equivalent(e, t.bor(may, h2), may, N.facts)
        R.check(d is None, tag + "when", "%s a collision is reported under another condition: differs when %s" % (tag, t.showb(d, 4)[:300] if d else ""), tag + " a collision is reported exactly when they touch")
        if d is not None:
            return False
        h = t.band(h, N.facts)
        d = differs(e, tm, lo, h)
        ok = R.check(d is None, tag + "time", "%s the time is not that of the first contact: %s" % (tag, d), tag + " the collision is at the first time they touch")
        for key, got, ref in (("position", p, pos), ("normal", n, nrm)):
            if ref is None:
                continue
            bad = None
            for c, leaf in t.leaves(tm, h):
                if t.band(c, order.theory(Alg(e), [c])) == 0:
                    continue
                bad = self.attime(got, c, leaf, ref)
                if bad:
                    break
            ok &= R.check(bad is None, tag + key, "%s the %s is not that of the contact: %s" % (tag, key, bad), "%s the %s is that of the contact, in each case of the time" % (tag, key)) is not False
        return ok

    def attime(self, got, c, leaf, ref):
        """None if got is ref(time) in the case c, where the time is leaf"""
        e = self.e
        g = Subst(e, None, c)(got)
        if leaf.op != "f":
            # any time would do
            tt = S("time")
            r = differs(e, Subst(e, {leaf: tt})(g), ref(tt), c)
            if r is None:
                return None
        return differs(e, g, ref(leaf), c)

    def hitcond(self):
        """condition of Some"""
        return t.bnot(fail_cond(None, self.r, "option"))

    def field(self, v, tid, *names):
        for n in names:
            i = self.M.d.field_index(tid, n)
            v = self.e.project(v, self.M.d.fproj(tid, n))
            tid = self.M.d.fields(tid)[i]["t"]
        return v

    def parts(self, r=None):
        """-> condition of a hit, time, position, normal"""
        M, e = self.M, self.e
        r = self.r if r is None else r
        ct = M.d.fields(self.cf["locals"][0][0], 1)[0]["t"]
        c = e.project(e.project(r, ("v", 1)), M.d.fproj(self.cf["locals"][0][0], "0", 1))
        tm = self.field(c, ct, "times", "min")
        return t.bnot(fail_cond(None, r, "option")), tm, self.field(c, ct, "position"), self.field(c, ct, "normal")


def bycases(e, b, limit=8):
    """conditions on a value that depends on a choice of times are looked at for each of these times"""
    for _ in range(limit):
        node = None
        for a in sorted(t.bsupport(b), key=lambda a: a.id):
            found = []

            def vis(y):
                if y.op == "ite" and not found and kind_(e, y) == "s" and all(z.op in ("f", "sym") for _, z in t.leaves(y)):
                    found.append(y)
                return False
            if a.op in ("lt", "feq"):
                occurs(a, vis)
            if found:
                node = found[0]
                break
        if node is None:
            return b
        r = 0
        for c, x in t.leaves(node):
            r = t.bor(r, t.band(c, Subst(e, {node: x}).b(b)))
        b = r
    return b


def signs(d):
    """[(1 or -1, condition under which the sum d has that sign)], roots and lengths not being zero"""
    g = alg.sign(d)
    if g in (1, -1, "+", "-"):
        return [(1 if g in (1, "+") else -1, 1)]
    if len(d) != 1:
        return []
    (m, c), = d.items()
    out = [(1 if c > 0 else -1, 1)]
    for x, k in m:
        if alg.nonneg(x, k):
            continue
        p = alg.thaw(x[1]) if x[0] == "poly" else alg.atom(x)
        p = alg.sscale(p, F(1) / abs(alg.freeze(p)[0][1]))
        below, above = (t.bvar(mk("cltz", (), alg.freeze(alg.sscale(p, F(s))))) for s in (1, -1))
        out = [(s * r, t.band(b, q)) for s, b in out for r, q in ((1, above), (-1, below))]
    return out


class Times:
    """times of contact (quotients and the like) replaced by symbols, one for each value"""

    def __init__(self, e, *lists, conds=()):
        A = Alg(e)
        known = []
        mp = {}
        lists = list(lists)
        for b in conds:
            lists.append([(1, y) for a in sorted(t.bsupport(b), key=lambda a: a.id) if a.op == "lt" and a.attr == "f" for y in a.args if (y.args[0] if y.op == "neg" else y).op == "div"])
        for l in lists:
            for c, x in l:
                if x.op == "f" or x in mp:
                    continue
                s = next((s for y, s in known if A.eq(x, y)), None) or next((t.neg(s) for y, s in known if A.eq(x, t.neg(y))), None)
                if s is None:
                    s = S("time%d" % len(known))
                    known.append((x, s))
                mp[x] = s
        # what is known of their order (two that differ by the root of a discriminant are not equal: that is another case)
        self.facts = 1
        for i, (x, sx) in enumerate(known):
            for y, sy in known[:i]:
                for g, c in signs(alg.sadd(A.s(x), A.s(y), F(-1))):
                    a, b = (sy, sx) if g > 0 else (sx, sy)
                    self.facts = t.band(self.facts, t.bor(t.bnot(c), t.band(lt(a, b), t.bnot(lt(b, a)))))
        self.sub = Subst(e, mp)
        self.b = self.sub.b
        self.mp = mp

    def __call__(self, x):
        return self.sub(x)


class Earliest:
    """A search that keeps the earliest of a series of collisions: a value that is none at first and that loops replace, each
    round by at most one collision, when there is one and it comes before the one kept. A variable that repeats the time of
    the collision kept (infinite when there is none) is recognised by its value at entry and after a round."""

    def __init__(self, P, hook=None):
        self.P, self.e = P, P.e
        e = self.e
        self.rs = resolver(e)
        self.C = clean(e, hook or self.rs)
        h = P.clean.b(P.hitcond())
        # the collision kept at the end
        tops = {a.args[0] for a in t.bsupport(h) if a.op == "is" and a.args[0].op == "mu"}
        if len(tops) != 1:
            raise AnalysisError("the collision kept by a search was not found")
        self.E = tops.pop()
        self.stages = []
        E, n = self.E, 0
        while E.op == "mu" and n < 20:
            lp = Loop(e, e.mu[E]["loop"])
            self.stages.insert(0, (lp, E))
            E = lp.init(E)
            n += 1
        self.first = E

    def kept(self, E):
        """(some, time) of the collision kept"""
        h, tm, _, _ = self.P.parts(E)
        return h, tm

    def twin(self, lp, E):
        """variables of the loop that repeat the time of the collision kept -> substitution"""
        h, tm = self.kept(E)
        val = ite(h, tm, INF())
        mp = {}
        for m in lp.mus:
            if m is E or m in lp.counters() or kind_(self.e, lp.init(m)) != "s":
                continue
            mp[m] = val
        return mp

    def round(self, R, tag, i, T, side, pos, nrm, name={}, rename=(), inner=None):
        """in a round of stage i, the collision kept is replaced by the one described when that comes before it.
        name: parts of the code's values to be renamed, rename: values (and what to call them), inner: what else a hit depends on"""
        lp, E = self.stages[i]
        e, P, C = self.e, self.P, self.C
        h, tm = self.kept(E)
        tw = self.twin(lp, E)
        pipe = Pipe(Subst(e, tw), C, Subst(e, name), C, *[z for ref, sym in rename for z in (Subst(e, None, 1, renamer(e, ref, sym)), C)])
        new = pipe(lp.nxt(E))
        rec = {m: pipe(lp.nxt(m)) for m in tw}
        N = Times(e, [x for x in t.leaves(P.parts(new)[1]) if x[1] is not tm], t.leaves(C(T.lo)), conds=[c for c, _ in t.leaves(new)] + [C.b(T.empty)])
        new, rec = N(new), {m: N(x) for m, x in rec.items()}
        # replaced: not the old one
        keep = 0
        for c, x in t.leaves(new):
            if x is E:
                keep = t.bor(keep, c)
        W = t.bnot(keep)
        # its time is known in the variables that repeat it
        nh, nt, _, _ = P.parts(new)
        for m, u in rec.items():
            want = C(ite(nh, nt, INF()))
            d = None if samecases(e, u, want, 1) else differs(e, u, want)
            R.check(d is None, tag + "record", "%s the time recorded is not that of the collision kept: %s" % (tag, d), tag + " the time recorded is that of the collision kept")

        def both(x):
            c = side(x) if side else 1
            return t.band(c, t.bor(t.bnot(h), lt(x, tm))), t.band(c, t.bor(t.bnot(h), t.bnot(lt(tm, x))))
        nh, nt, np_, nn = (Subst(e, None, W)(x) if isinstance(x, t.T) else x for x in P.parts(new))
        R.check(t.bimp(W, nh), tag + "some", "%s a collision kept is dropped" % tag, tag + " a collision once found is replaced only by another")
        if inner:
            ok = inner(W, Pipe(pipe, N))
            if ok is None:
                return False
            W = ok
        return P.matches(tag, W, nt, np_, nn, T, both, pos, nrm, N, R)

    def begin(self, R, tag, i):
        """at the start of stage i the variables that repeat the time agree with the collision kept"""
        lp, E = self.stages[i]
        h, tm = self.kept(E)
        tw = self.twin(lp, E)
        back = Subst(self.e, self.twin(*self.stages[i - 1])) if i else lambda x: x
        init = lp.init(E)
        ih, it_ = self.kept(init)
        for m in tw:
            d = differs(self.e, self.C(back(lp.init(m))), self.C(ite(ih, it_, INF())))
            R.check(d is None, tag + "start", "%s the time recorded at first is not that of the collision kept: %s" % (tag, d), tag + " the time recorded at first is that of the collision kept")


def kind_(e, x):
    return Alg(e).kind(x)


def samecases(e, x, y, pc):
    A = Alg(e)
    lx, ly = t.leaves(x), t.leaves(y)
    if len(lx) * len(ly) > 400:
        return False
    pc = A.canon(pc)
    for c, a in lx:
        c = t.band(A.canon(c), pc)
        for d, b in ly:
            if a is not b and c and t.band(c, A.canon(d)) and (kind_(e, a) != kind_(e, b) or not A.eq(a, b)):
                return False
    return True


def world(o, p):
    return t.add(o.get("position"), rot(o.get("rotation"), t.add(p, o.get("internal_origin_offset"))))


def local(o, p):
    return t.sub(rot(qinv(o.get("rotation")), t.sub(p, o.get("position"))), o.get("internal_origin_offset"))


from prims import VM, VL


def vlen(e, v):
    return e.project(v, VL)


def velem(e, v, k):
    x = e.mksel(e.project(v, VM), k, ())
    return x


def tupf(e, x, i, n):
    return e.project(x, ("f", i, n, "tuple"))


def along(a, b, tm):
    return t.add(a, t.mul(tm, t.sub(b, a)))


def S_(n):
    """a positive number"""
    x = S(n)
    alg.POS.add(("t", x.id))
    return x


def positive():
    alg.POS.clear()
    alg.SQUARES.clear()
    alg.FINITE[0] = True


class Sphere:
    """contacts of a sphere moving from c0 to c1 with things that move by `mv`"""

    def __init__(self, r, c0, c1, mv):
        self.r, self.c0, self.c1, self.mv = r, c0, c1, mv
        self.v = t.sub(t.sub(c1, c0), mv)

    def center(self, tm):
        return along(self.c0, self.c1, tm)

    def off(self, pos):
        """normal of a contact: off the sphere"""
        def f(tm):
            d = t.sub(pos(tm), self.center(tm))
            return t.div(d, t.norm(d))
        return f

    def point(self, p):
        d = t.sub(self.c0, p)
        T = roots(t.dot(self.v, self.v), t.mul(num(2.0), t.dot(self.v, d)), t.sub(t.dot(d, d), t.mul(self.r, self.r))).meet(UNITTIME())
        pos = lambda tm: t.add(p, t.mul(tm, self.mv))
        return T, None, pos, self.off(pos)

    def segment(self, p, q):
        """the line through p and q, between them"""
        u = t.sub(q, p)
        u = t.div(u, t.norm(u))
        a, b = mk("cross", (t.sub(self.c0, p), u)), mk("cross", (self.v, u))
        T = roots(t.dot(b, b), t.mul(num(2.0), t.dot(a, b)), t.sub(t.dot(a, a), t.mul(self.r, self.r))).meet(UNITTIME())
        at = lambda x, tm: t.add(x, t.mul(tm, self.mv))

        def pos(tm):
            s = at(p, tm)
            return t.add(s, t.mul(t.dot(t.sub(self.center(tm), s), u), u))

        def between(tm):
            x = pos(tm)
            d = t.sub(t.add(t.norm(t.sub(at(p, tm), x)), t.norm(t.sub(at(q, tm), x))), t.norm(t.sub(q, p)))
            return lt(t.fabs(d), EPS())
        return T, between, pos, self.off(pos)


def opaque(e, ref, name):
    """hook: what is read of a list whose element k is ref(k) is the symbol name(k)"""
    rs = resolver(e)
    A = Alg(e)
    memo = {}

    def hook(x):
        if x.op == "sel" and x.args[0].op == "mu" and x.attr == ():
            m, k = x.args
            if m not in memo:
                kk = t.sym("k'")
                r = element(e, m, kk)
                memo[m] = r is not None and kind_(e, r[1]) == "v" and differs(e, Subst(e, None, 1, rs)(r[1]), ref(kk)) is None
            if memo[m]:
                return name(k)
        return rs(x)
    return hook


class Pipe:
    """one substitution after the other"""

    def __init__(self, *subs):
        self.subs = subs

    def __call__(self, x):
        for f in self.subs:
            x = f(x)
        return x

    def b(self, n):
        for f in self.subs:
            n = f.b(n)
        return n


def renamer(e, ref, sym, ops=("normalize", "div")):
    """hook: every part that equals ref is sym"""
    A = Alg(e)
    k = kind_(e, ref)
    f = A.v if k == "v" else A.s
    nf = f(ref)

    def hook(y):
        if y.op in ops and kind_(e, y) == k:
            try:
                if alg.limited(20000, f, y) == nf:
                    return sym
            except alg.Budget:
                pass
        return None
    return hook


class Walk:
    """A loop over the edges of a polygon that compares the sign of a number (one for each edge) with those seen before. Its
    variables only take constants; from the constants at entry, the values after a round with the number in each of the regions
    in which all its comparisons agree are followed until nothing new appears."""

    def __init__(self, e, lp, isnum, sub):
        """isnum: predicate, is this term the number; sub: substitution to apply first"""
        self.e, self.lp, self.isnum, self.sub = e, lp, isnum, sub
        self.cs = lp.counters()
        self.vars = [m for m in sorted(lp.mus, key=lambda m: m.id) if m not in self.cs and m not in self.before(lp)]
        self.nx = {m: sub(lp.nxt(m)) for m in self.vars}
        self.counter, self.count = self.rounds_of(lp)
        self.d = t.tobdd(t.ilt(self.counter, self.count))
        self.D = sub.b(self.d)
        self.entry, self.back = sub.b(lp.entry), sub.b(lp.back)
        self.early = sub.b(t.band(lp.exitcond(), self.d))

    @staticmethod
    def rounds_of(lp):
        """(counter, limit): a round takes place while the counter is below the limit"""
        for m in lp.counters():
            for a in sorted(t.bsupport(lp.back), key=lambda a: a.id):
                if a.op == "lt" and a.attr == "i" and t.bimp(lp.back, t.bvar(a)):
                    c, d = t.lin(a.args[1])
                    if d.get(m) == -1 and a.args[0] is cint(0) and not occurs(t.iadd(a.args[1], m), lambda y: y in lp.mus):
                        return m, t.iadd(a.args[1], m)
        raise AnalysisError("the end of the walk over a polygon's edges was not found (%s)" % lp.where())

    @classmethod
    def before(cls, lp):
        """variables that hold the place before the counter's, the last one at first"""
        c, n = cls.rounds_of(lp)
        return [m for m in lp.mus if m is not c and lp.nxt(m) is c and lp.init(m) is t.iadd(n, cint(-1))]

    def thresholds(self):
        out = {F(0), F(1e-06), F(-1e-06)}
        cs = set()
        for b in self.nx.values():
            cs |= conds(b)
        for a in cs | set(t.bsupport(self.early)) | set(t.bsupport(self.back)):
            for x in a.args if a.op in ("lt", "feq") else ():
                if fconst(x):
                    out |= {fval(x), -fval(x)}
        return sorted(out)

    def at(self, s, state):
        """substitution for a round in which the number is s (None: any), the variables being state"""
        def hook(x):
            if s is not None and self.isnum(x):
                return num(float(s))
            if x.op in ("abs", "neg", "signum") and fconst(x.args[0]):
                v = fval(x.args[0])
                return num(float(abs(v) if x.op == "abs" else -v if x.op == "neg" else (1 if v >= 0 else -1)))
            if x.op in ("lt", "feq") and x.attr != "i" and all(fconst(y) for y in x.args):
                u, v = (fval(y) for y in x.args)
                return t.TRUE if (u < v if x.op == "lt" else u == v) else t.FALSE
            return None
        return Twice(Subst(self.e, state, 1, hook))

    def follow(self):
        """[(substitution, both signs were seen)] for every way the loop can be left"""
        th = self.thresholds()
        pts = [th[0] - 1]
        for a, b in zip(th, th[1:]):
            pts += [a, (a + b) / 2]
        pts += [th[-1], th[-1] + 1]
        start = (tuple(self.lp.init(m) for m in self.vars), frozenset())
        seen, todo, out = {start}, [start], []
        while todo:
            st, signs = todo.pop()
            mp = dict(zip(self.vars, st))
            end = self.at(None, mp)
            out.append((lambda b, f=end: t.bsub(f.b(b), self.ended(False)), len(signs) == 2))
            for p in pts:
                sg = signs if abs(p) < F(1e-06) else signs | {1 if p > 0 else -1}
                f = self.at(p, mp)
                go = t.band(f.b(self.entry), self.D)
                leave, stay = t.band(f.b(self.early), go), t.band(f.b(self.back), go)
                if leave and stay:
                    raise AnalysisError("leaving the walk over a polygon's edges early depends on more than the sides the point is on (%s)" % self.lp.where())
                if leave:
                    out.append((lambda b, f=f: t.bsub(f.b(b), self.ended(True)), len(sg) == 2))
                    continue
                nst = tuple(f(self.nx[m]) for m in self.vars)
                if not all(constant(x) for x in nst):
                    raise AnalysisError("what the walk over a polygon's edges remembers was not understood (%s)" % self.lp.where())
                n = (nst, sg)
                if n not in seen:
                    if len(seen) > 200:
                        raise AnalysisError("too many states in %s" % self.lp.where())
                    seen.add(n)
                    todo.append(n)
        self.states, self.seen = len(seen), sorted(seen, key=str)
        return out

    def ended(self, more):
        a = t.S.varterm[t.S.node[self.D][0]]
        v = 1 if more else 0
        none = t.ieq(self.count, cint(0))
        return lambda x: v if x is a else 0 if more and x is none else t.bvar(x)


def constant(x):
    return x.op in ("f", "i", "b") or x.op == "agg" and all(constant(y) for y in x.args)


def fconst(y):
    return y.op == "f" and y.attr not in ("inf", "-inf", "nan") or y.op == "neg" and fconst(y.args[0])


def fval(y):
    return -fval(y.args[0]) if y.op == "neg" else F(float(y.attr))


from fractions import Fraction as F


def listsource(e, n):
    """length of what is walked to fill the list of length n, one element each"""
    k = 0
    while n.op == "mu" and n in e.mu and k < 5:
        lp = Loop(e, e.mu[n]["loop"])
        d = lp.driver()
        if d is None or n not in lp.counters() or lp.init(n) is not cint(0) or d[1] != "count" or lp.init(d[0]) is not cint(0):
            return None
        n = d[2]
        k += 1
    return n
