"""No operation panics."""
from cells import Cells
from checks.p11 import invariant
from world import *
from round import *


def run(M, R):
    R.expl = ("every place that can panic in what an operation runs is met by the symbolic execution with the condition under which it does; each condition is refuted under the link invariant, with facts about lists, sets and queues of "
              "handles shown by induction over the loops; dynamic borrows are a typestate of guards, followed through the call graph, force generators counting as callers of every public function that takes a shared system")
    borrows(M, R)
    ops(M, R)
    step(M, R)


# ---------------------------------------------------------------- dynamic borrows
def borrows(M, R):
    C = Cells(M)
    n = [0]
    for f in sorted(M.d.fns.values(), key=lambda f: f["id"]):
        bad = []

        def report(kind, f, tm, x, c, m, via=None):
            if kind == "site":
                n[0] += 1
            elif kind == "leak":
                bad.append("the borrow of %s is never given back (%s)" % (C.name(c), tm["sp"]))
            else:
                bad.append("%s is borrowed%s at %s%s while it is borrowed%s since %s" % (C.name(c), " mutably" if m else "", tm["sp"], " by " + via if via else "", " mutably" if x[2] else "", x[3]))
        C.flow(f, report)
        R.check(not bad, "borrow:" + f["path"], "%s: %s" % (f["path"], "; ".join(sorted(set(bad)))[:500]), "no conflicting borrows in " + f["path"] if bad is not None else None)
    R.count("borrow_sites", n[0])
    R.check(len(C.reach) >= 1, "callbacks", "no public function takes a shared system", None)


# ---------------------------------------------------------------- facts
class Facts:
    """what is always so of handles in sets, queues and lists, and of indices"""

    def __init__(self, M, e, W=None):
        self.M, self.e, self.W = M, e, W
        f = lambda n: (M.d.fproj(M.ient, n),)
        self.NB, self.COLL = f("neighbors"), f("colliders")
        s0 = init_root(SELF)
        self.LE, self.LC, self.LG = (e.project(M.arena(e, s0, w), prims.AL) for w in ("ent", "col", "gen"))
        self.E0 = M.amap(e, s0, "ent")
        self.hyp = {}
        self.norm = lambda x: x
        self.alive = set()          # conditions under which the operation works on entities it was given

    Z = None

    def rounds(self, lp, m, path):
        """a round of the collision loop keeps them live, whether there is a collision in it or not"""
        Z = self.Z
        for F, pc in ((Z.found, Z.pcF), (Z.none, 1)):
            x = restrict(F(lp.nxt(m)), t.band(F(lp.back), pc))
            if not self.field(x, path):
                return False
        return True

    # ---- handles of entities that are live
    def livek(self, k, pc=1):
        k = self.norm(k)
        for c, l in t.leaves(k):
            c = t.band(c, pc)
            if c and l is not UNINIT and not self.live1(l, c):
                return False
        return True

    def live1(self, k, c):
        if k.op == "aitem":
            return k.args[0] is self.LE
        if k.op == "sitem":
            return self.livset(k.args[0])
        if k.op == "qitem":
            return self.livq(k.args[0])
        if t.bimp(c, t.bvar(mk("live", (self.LE, k)))):
            return True
        if self.W is not None:
            return self.W.infeasible(t.band(c, t.bnot(t.bvar(mk("live", (self.LE, k)))))) is None
        return False

    def assume(self, key, proof):
        """by induction: key holds when proof, which may use it, holds"""
        if key in self.hyp:
            return self.hyp[key]
        self.hyp[key] = True
        old = set(self.hyp)
        r = proof()
        if not r:
            for k in set(self.hyp) - old:
                del self.hyp[k]         # shown under a wrong assumption
            self.hyp[key] = False
        return r

    def livset(self, S):
        """all members are live entities"""
        S = self.norm(S)
        if S.op == "ite":
            return all(self.livset(x) for x in S.args)
        if S.op == "emptyset":
            return True
        if S.op == "srem":
            return self.livset(S.args[0])
        if S.op == "sins":
            return self.livset(S.args[0]) and self.livek(S.args[1])
        if S.op in ("sunion", "union"):
            return all(self.livset(x) for x in S.args)
        if S.op == "sel":
            return self.field(S.args[0], S.attr)
        if S.op == "mu" and "init" in self.e.mu.get(S, {}):
            return self.assume(("set", S), lambda: self.livset(self.init(S)) and all(self.livset(x) or self.member_ok(x, c, S) for c, x in t.leaves(self.next(S))))
        return False

    def member_ok(self, x, c, S):
        return x.op == "sins" and self.livset(x.args[0]) and self.livek(x.args[1], c)

    def init(self, m):
        return self.e.mu[m]["init"]

    def next(self, m):
        lp = Loop(self.e, self.e.mu[m]["loop"])
        return lp.nxt(m)

    def field(self, m, path):
        """the sets at `path` of the elements of map m have only live members"""
        if m.op == "ite":
            return all(self.field(x, path) for x in m.args)
        if m.op == "store":
            b, k, v = m.args
            rel = self.e.prel(m.attr, path)
            if rel == "dis":
                return self.field(b, path)
            if m.attr == path:
                return self.field(b, path) and self.livset(v)
            if rel == "pre":
                return self.field(b, path) and self.livset(self.e.projpath(v, path[len(m.attr):], St({}, 1)))
            return False
        if m is self.E0:
            return path == self.NB
        if m.op == "mu" and "init" in self.e.mu.get(m, {}):
            def proof():
                lp = Loop(self.e, self.e.mu[m]["loop"])
                if lp.backst is None:
                    return self.field(self.init(m), path)
                if self.Z is not None and lp.key == self.Z.iter.key:
                    return self.field(self.init(m), path) and self.rounds(lp, m, path)
                return self.field(self.init(m), path) and self.field(restrict(lp.nxt(m), lp.back), path)
            return self.assume(("map", m, path), proof)
        if m.op in ("emptyvec", "nomap", "emptymap", "undef"):
            return True
        return getattr(self, "basefield", lambda m, p: False)(m, path)

    def untouched(self, m, path):
        """nothing is stored at `path` of the elements of map m"""
        if m.op == "ite":
            return all(self.untouched(x, path) for x in m.args)
        if m.op == "store":
            rel = self.e.prel(m.attr, path)
            if rel == "dis":
                return self.untouched(m.args[0], path)
            return rel == "pre" and self.e.projpath(m.args[2], path[len(m.attr):], St({}, 1)) is self.e.mksel(m.args[0], m.args[1], path) and self.untouched(m.args[0], path)
        if m is self.E0:
            return True
        if m.op == "mu" and "init" in self.e.mu.get(m, {}):
            return self.assume(("kept", m, path), lambda: self.untouched(self.init(m), path) and (Loop(self.e, self.e.mu[m]["loop"]).backst is None or self.untouched(restrict(self.next(m), Loop(self.e, self.e.mu[m]["loop"]).back), path)))
        return False

    def livq(self, Q):
        """everything in the queue is a live entity"""
        if Q.op == "ite":
            return all(self.livq(x) for x in Q.args)
        if Q.op == "qnew":
            return True
        if Q.op == "qrest":
            return self.livq(Q.args[0])
        if Q.op == "qpush":
            return self.livq(Q.args[0]) and self.livek(Q.args[1], self.ctx)
        if Q.op == "mu" and "init" in self.e.mu.get(Q, {}):
            def proof():
                lp = Loop(self.e, self.e.mu[Q]["loop"])
                old = getattr(self, "ctx", 1)
                en = lp.entry if isinstance(lp.entry, int) else getattr(lp.entry, "pc", 1)
                self.ctx = self.norm_b(en)
                ok = self.livq(self.init(Q))
                if ok and lp.backst is not None:
                    self.ctx = self.norm_b(lp.back)
                    ok = self.livq(restrict(lp.nxt(Q), lp.back))
                self.ctx = old
                return ok
            return self.assume(("queue", Q), proof)
        return False
    ctx = 1

    def norm_b(self, c):
        return c

    # ---- conditions
    def refute(self, c):
        """the condition without the cases that cannot be; 0 when none is left"""
        if c == 0:
            return 0
        for a in sorted(t.bsupport(c), key=lambda a: a.id):
            v = t.bvar(a)
            if a.op == "live":
                S, k = a.args
                neg = t.band(c, t.bnot(v))
                if neg == 0:
                    continue
                if S in (self.LE, self.LG) and (k.op == "aitem" and k.args[0] is S or S is self.LE and self.livek(k, t.bcof(c, a, 0))):
                    c = t.band(c, v)
            elif a.op == "batom" and str(a.attr).startswith("ovf"):
                pos = t.band(c, v)
                if pos and a.attr == "ovfAdd" and self.bounded(pos, t.iadd(*a.args)):
                    c = t.band(c, t.bnot(v))
            if c == 0:
                return 0
        c = t.band(c, self.ints(c))
        return c

    def bounded(self, c, x):
        """x is at most the length of some list, plus a little"""
        for a in t.bsupport(c):
            if not t.bimp(c, t.bvar(a)):
                continue
            if a.op == "more" and a.attr is None:       # a position in a collection
                d = t.iadd(x, a.args[1], -1)
                if d.op == "i" and d.attr <= 1 << 20:
                    return True
            n = self.gap(a)
            if n is None:
                continue
            s = t.iadd(n, x)
            k, rest = intconst(s)
            if rest is not None and k <= 1 << 20 and islen(rest):
                return True
        # or each part on its own, when there are two
        ps = [p for p in iparts(x) if p[0] is not None]
        k = sum(co for p, co in iparts(x) if p is None)
        return 0 <= k <= 1 << 20 and len(ps) <= 1 and all(co == 1 and any(self.under(c, p) for _ in (0,)) for p, co in ps)

    def under(self, c, p):
        for a in t.bsupport(c):
            n = self.gap(a)
            if n is not None and t.bimp(c, t.bvar(a)):
                k, rest = intconst(t.iadd(n, p))
                if rest is not None and islen(rest):
                    return True
        return False

    @staticmethod
    def gap(a):
        """E of an atom 0 < E over the integers"""
        if a.op == "lt" and a.attr == "i" and a.args[0] is cint(0):
            return a.args[1]
        return None

    def ints(self, c):
        """0 < E and 0 < F cannot both be when E + F is a constant below 2, and cannot both fail when it is above 0"""
        l = [(a, self.gap(a)) for a in sorted(t.bsupport(c), key=lambda a: a.id)]
        l = [(a, n) for a, n in l if n is not None]
        r = 1
        for i, (a, m) in enumerate(l):
            for b, n in l[i + 1:]:
                s = t.iadd(m, n)
                if s.op == "i":
                    if s.attr < 2:
                        r = t.band(r, t.bnot(t.band(t.bvar(a), t.bvar(b))))
                    if s.attr > 0:
                        r = t.band(r, t.bor(t.bvar(a), t.bvar(b)))
                d = t.iadd(m, n, -1)
                if d.op == "i":         # m = n + d
                    x, y = (a, b) if d.attr >= 0 else (b, a)
                    r = t.band(r, t.bor(t.bnot(t.bvar(y)), t.bvar(x)))
        return r


def iparts(x):
    """[(term or None, coefficient)] of an integer sum"""
    if x.op == "i":
        return [(None, x.attr)]
    if x.op == "lin":
        c, cs = x.attr
        return ([(None, c)] if c else []) + list(zip(x.args, cs))
    return [(x, 1)]


def intconst(x):
    """(constant, single term) of an upper bound c + term; term None otherwise"""
    ps = iparts(x)
    k = sum(c for p, c in ps if p is None)
    r = [(p, c) for p, c in ps if p is not None and c > 0]      # terms are never negative
    if len(r) == 1 and r[0][1] == 1:
        return k, r[0][0]
    return k, None


def islen(x):
    return x.op in ("len", "alen", "slen", "vlen", "mlen", "qlen") or x.op == "fld" or x.op == "mu"


# ---------------------------------------------------------------- operations other than step
def ops(M, R):
    n = 0
    for f in sorted(M.public_api(), key=lambda f: f["name"]):
        if f["name"] == "step" or f["argc"] < 1 or M.d.types[f["locals"][1][0]]["k"] != "ref":
            continue
        n += 1
        e = M.engine()
        st = St({}, 1)
        args = e.default_args(f, st)
        args[0] = M.selfref()
        s, ret = M.run(e, f, args, st)
        R.count("functions_analysed", len(e.stats["fns"]))
        R.count("calls_resolved", e.stats["calls"])
        known_calls(R, e, f["name"], f["name"])
        W = World(M, e, s)
        F = Facts(M, e, W)
        F.norm = W.canon
        F.norm_b = W.canon.b
        sites = 0
        for ev in e.log:
            if ev["kind"] != "panic":
                continue
            sites += 1
            c = F.refute(W.canon.b(ev["cond"]))
            d = W.infeasible(c) if c else None
            R.check(d is None, "%s:%s" % (f["name"], where(M, ev)), "%s can panic (%s in %s)%s" % (f["name"], ev["why"], where(M, ev), "" if d is None else ", e.g. when " + t.showb(d, 3, 1)[:300]), "%s: %s in %s never fails" % (f["name"], ev["why"], where(M, ev)))
        R.count("panic_sites", sites)
        new = [y for y in t.S.all if y.op == "newh"]
        invariant(M, R, W, f["name"], [t.sym("any_entity")] + [y for y in new if prims.live(e, W.LE1, y)], [t.sym("any_collider")] + [y for y in new if prims.live(e, W.LC1, y)])
        R.check(s is not None, f["name"] + ":returns", f["name"] + " never returns", f["name"] + " returns")
    R.floor("operations", n, 11)


def where(M, ev):
    """the function of this crate in which the panic is"""
    for fr in reversed(ev.get("stack") or ()):
        p = fr[0] if isinstance(fr, tuple) else fr
        if isinstance(p, str) and p.startswith("fluffy"):
            return p
    return ev["site"][0]


# ---------------------------------------------------------------- step
def step(M, R):
    S = Step(M)
    e = S.e
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    Z = Round(M, S)
    R.check(not Z.cover, "step:pairs", "the search for collisions does not look at pairs of different entities: " + "; ".join(Z.cover)[:300], "step: pairs of entities are of different ones")
    W = World(M, e, S.s)
    sites = 0
    for ev in e.log:
        if ev["kind"] != "panic":
            continue
        sites += 1
        left = 0
        for name, nb, nx, pc in views(Z, ev):
            F = Facts(M, e, None)
            F.Z = Z
            F.norm = nx
            F.norm_b = nb
            lock = Subst(e, lockstep(e, ev["loops"]))
            c = lock.b(t.band(nb(ev["cond"]), pc))
            for _ in range(3):
                c2 = F.refute(c)
                if c2 == c:
                    break
                c = c2
            if c:
                c = W.infeasible(c) or 0
            if c:
                left = c
                break
        R.check(left == 0, "step:%s:%s" % (where(M, ev), ev["why"]), "step can panic (%s in %s)%s" % (ev["why"], where(M, ev), "" if left == 0 else ", e.g. when " + t.showb(left, 3, 1)[:300]), "step: %s in %s never fails" % (ev["why"], where(M, ev)))
    R.count("panic_sites", sites)
    kept(M, R, S, Z)


def kept(M, R, S, Z):
    """the link invariant holds after a step when it held before: nothing is linked or removed, and neighbours are live"""
    e = S.e
    s1 = M.system(S.s)
    for w, n in (("ent", "entities"), ("col", "colliders"), ("gen", "force generators")):
        a, b = (e.project(M.arena(e, x, w), prims.AL) for x in (S.sys0, s1))
        R.check(a is b, "step:invariant:" + w, "step changes which %s exist" % n, "step adds and removes no " + n)
    R.check(M.amap(e, s1, "col") is M.amap(e, S.sys0, "col"), "step:invariant:links", "step changes colliders", "step changes no collider")
    F = Facts(M, e, None)
    F.Z = Z
    F.norm = Subst(e, None, 1, Resolve(e, ()).hook)
    F.norm_b = F.norm.b
    X = M.amap(e, s1, "ent")
    R.check(F.untouched(X, F.COLL), "step:invariant:listed", "step changes which colliders an entity lists", "step leaves the lists of colliders alone")
    R.check(F.field(X, F.NB), "step:invariant:neighbor", "after a step an entity can have a neighbor that does not exist", "after a step neighbors are live entities")


def lockstep(e, lps):
    """counters of running loops, in terms of one counter of the loop that starts from a constant, or of the number of rounds done"""
    mp = {}
    for k in lps:
        cs = Loop(e, k).counters()
        base = [m for m in cs if cs[m].op == "i"]
        n = t.iadd(base[0], cs[base[0]], -1) if base else t.sym("rounds:" + str(k))
        for m, i0 in cs.items():
            if not base or m is not base[0]:
                mp[m] = t.iadd(i0, n)
    return mp


def views(Z, ev):
    """[(name, conditions, values, assumption)]: the cases in which to look at something that happens in step"""
    e = Z.e
    lps = ev["loops"]
    if lps[:1] == (Z.iter.key,) or lps and lps[0] == Z.iter.key:
        if len(lps) > 1 and lps[1] == Z.loops[0].key:
            s = Subst(e, None, 1, Resolve(e, lps).hook)
            return [("search", s.b, s, 1)]
        return [("found", Z.found, Z.found, Z.pcF), ("none", Z.none, Z.none, 1)]
    s = Subst(e, None, 1, Resolve(e, lps).hook)
    return [("step", s.b, s, 1)]
