"""The system before and after a public operation, in canonical form, and the link invariant.

 * canonical form: whatever its concrete type, the link of collider k is `sel<link>(C, k)`;
 * `World.at/live/...`: a field of a generic object after the operation, through stores and loops;
 * facts: instances of the invariant on the state before, at the handles a condition mentions;
 * `infeasible`: a condition (BDD) has no state satisfying the invariant; equalities between handles
   are decided by substitution in both cases (congruence), nothing is searched."""
from frame import *
from loops import Subst, Loop, walks, occurs

LINK = (("link",),)
PAY = LINK + (("v", 1), ("f", 0, 1, OPT + "#1"))


def linkpaths(M):
    """path of the entity link below the box, per concrete collider type: what get_entity() returns"""
    r = getattr(M, "_linkpaths", None)
    if r is None:
        r = M._linkpaths = {}
        e = M.engine()
        base = mk("sel", (t.sym("CMAP"), t.sym("ck")), ())
        for path, info in sorted(M.ctraits.items()):
            root = ("tmpcol", path)
            st = St({root: base}, 1)
            s, v = e.call_fn(info["m"]["get_entity"], [mkref(root, (("dyn", path),))], st, ("getent", path), ("get_entity", "link"))
            v = restrict(v, prims.dyncond(e, base, path))
            if v.op == "sel" and v.args[1] is base.args[1]:
                r[path] = v.attr
            else:
                raise AnalysisError("get_entity of %s does not return a field" % path)
    return r


RANK = {"sym": 0, "fld": 1, "sel": 1, "sitem": 2, "aitem": 2, "newh": 3}


def weaken(c):
    """the condition without what it says about loop variables (a weaker hypothesis)"""
    for a in t.bsupport(c):
        if occurs(a, lambda y: y.op == "mu"):
            v = t.bvar(a)
            c = t.bor(t.bcof(c, a, 1), t.bcof(c, a, 0))
    return c


class World(View):
    def __init__(self, M, e, s, member=True):
        View.__init__(self, e, M)
        self.s0, self.s1, self.pc = init_root(SELF), M.system(s), s.pc
        self.lp = linkpaths(M)
        self.lpset = {p[0][:2]: p for p in self.lp.values()}
        self.member = member
        self.E0, self.C0 = M.amap(e, self.s0, "ent"), M.amap(e, self.s0, "col")
        self.LE0, self.LC0 = (e.project(M.arena(e, self.s0, w), prims.AL) for w in ("ent", "col"))
        f = lambda n: (M.d.fproj(M.ient, n),)
        self.COLL, self.NEI = f("colliders"), f("neighbors")
        self.listed = resolver(e)
        self.canon = Subst(e, hook=self.hook)
        self.pc = weaken(self.canon.b(self.pc))
        self.nmemo = {}
        self.E1, self.C1 = (self.canon(M.amap(e, self.s1, w)) for w in ("ent", "col"))
        self.LE1, self.LC1 = (self.canon(e.project(M.arena(e, self.s1, w), prims.AL)) for w in ("ent", "col"))

    # ---- canonical form
    def hook(self, x):
        if x.op == "sel" and x.args[0].op == "mu":
            return self.listed(x)
        if x.op != "sel" or x.args[0].op in ("store", "ite"):
            return None
        m, k = x.args
        if x.attr:
            p = self.lpset.get(x.attr[0][:2])
            if p and self.e.prel(p, x.attr) == "pre":
                x = mk("sel", (m, k), LINK + x.attr[len(p):])
        if self.member and x.attr[:1] == LINK and m is self.C0 and k.op == "sitem":
            h = self.owner(k.args[0])
            if h is not None:       # a member of an entity's set links to that entity (invariant)
                return self.e.projpath(Some(h), x.attr[1:], St({}, 1))
        return x

    def owner(self, S):
        """the entity whose collider set before the operation S is (a part of)"""
        while S.op == "srem":
            S = S.args[0]
        if S.op == "sel" and S.attr == self.COLL and S.args[0] is self.E0:
            return S.args[1]
        return None

    def next_of(self, m):
        r = self.nmemo.get(m)
        if r is None:
            lp = Loop(self.e, self.e.mu[m]["loop"])
            r = self.nmemo[m] = restrict(self.canon(lp.nxt(m)), self.canon.b(lp.back))
        return r

    def init_of(self, m):
        return self.canon(self.e.mu[m]["init"])

    # ---- collider links after the operation
    def link1(self, c):
        """Option value: link of collider c after"""
        r = None
        base = mk("sel", (self.C0, c), ()) if c.op != "newh" else self.e.mksel(self.C1, c, (), St({}, self.pc))
        for T, p in sorted(self.lp.items()):
            k = t.band(self.pc, prims.dyncond(self.e, base, T))
            if k == 0:
                continue
            v = self.canon(self.at(self.C1, c, p, k))
            r = v if r is None else ite(k, v, r)
        return r

    def is1(self, v):
        r = 0
        for c, l in t.leaves(v):
            if l is UNINIT:
                continue
            r = t.bor(r, t.band(c, (1 if t.variant_of(l) == 1 else 0) if l.op == "agg" else t.bvar(mk("is", (l,), 1))))
        return r

    def pay(self, v):
        return t.mapite(v, lambda y: UNINIT if y is UNINIT or y.op == "agg" and t.variant_of(y) == 0 else self.e.projpath(y, PAY[1:], St({}, 1)))

    def link0(self, c):
        return self.canon(mk("sel", (self.C0, c), LINK))

    def coll0(self, h):
        return mk("sel", (self.E0, h), self.COLL)

    def elive0(self, h):
        return prims.live(self.e, self.LE0, h)

    def clive0(self, c):
        return prims.live(self.e, self.LC0, c)

    def elive1(self, h):
        return self.canon.b(self.live(self.LE1, h, self.pc))

    def clive1(self, c):
        return self.canon.b(self.live(self.LC1, c, self.pc))

    def ent1(self, h, path):
        return self.canon(self.at(self.E1, h, path, self.pc))

    # ---- the invariant before
    def sublive(self, L, k):
        """fact: membership of k in a live set L reached by insertions and removals, in terms of the one before"""
        return t.band(t.bor(t.bnot(t.bvar(mk("live", (L, k)))), self.canon.b(self.live(L, k))), t.bor(t.bvar(mk("live", (L, k))), t.bnot(self.canon.b(self.live(L, k)))))

    def facts(self, cond):
        """instances of the invariant of the state before at the handles cond mentions"""
        e = self.e
        fs = 1
        seen = set()
        hs, cs, ns, ss = set(), set(), set(), set()
        lives, opts = set(), set()

        def visit(y):
            if y.op == "live":
                if y.args[0] is self.LC0:
                    cs.add(y.args[1])
                elif y.args[0] is not self.LE0:
                    lives.add(y)
            elif y.op == "contains":
                S, k = y.args
                if S.op == "sel" and S.args[0] is self.E0:
                    if S.attr == self.COLL:
                        hs.add((S.args[1], k))
                    elif S.attr == self.NEI:
                        ns.add((S.args[1], k))
                if S.op == "sel" and S.args[0].op == "mu":
                    ss.add(y)
            elif y.op == "sel" and y.args[0] is self.C0:
                cs.add(y.args[1])
            elif y.op == "sitem":
                ss.add(y)
            elif y.op == "eq" and any(z.op == "sel" and z.attr == LINK for z in y.args):
                opts.add(y)
            return False
        for a in t.bsupport(cond):
            occurs(a, visit, seen)
        imp = lambda a, b: t.bor(t.bnot(a), b)
        for y in lives:
            f = self.canon.b(self.live(*y.args))
            if f != t.bvar(y):
                fs = t.band(fs, t.bnot(t.bor(t.band(f, t.bnot(t.bvar(y))), t.band(t.bnot(f), t.bvar(y)))))
        for y in opts:          # equality of two optional handles
            a, b = y.args
            q = t.band(t.bnot(t.bor(t.band(self.is1(a), t.bnot(self.is1(b))), t.band(self.is1(b), t.bnot(self.is1(a))))), imp(self.is1(a), e.keyeq(self.pay(a), self.pay(b))))
            fs = t.band(fs, t.band(imp(t.bvar(y), q), imp(q, t.bvar(y))))
        for y in ss:
            S, k = (y.args[0], y) if y.op == "sitem" else y.args
            c = t.bvar(y) if y.op == "contains" else 1
            while S.op in ("srem", "sins"):
                q = prims.contains(e, S.args[0], k)
                eq = e.keyeq(S.args[1], k)
                fs = t.band(fs, imp(c, t.bor(q, eq) if S.op == "sins" else t.band(q, t.bnot(eq))))
                if S.op == "sins":
                    break
                S = S.args[0]
            if S.op == "sel" and S.args[0] is self.E0:
                if S.attr == self.COLL:
                    hs.add((S.args[1], k))
                elif S.attr == self.NEI:
                    ns.add((S.args[1], k))
            elif S.op == "sel" and S.args[0].op == "mu" and self.shrinks(S.args[0], S.attr):
                fs = t.band(fs, imp(c, prims.contains(e, self.canon(self.at(self.init_of(S.args[0]), S.args[1], S.attr)), k)))
        for h, k in hs:
            q = prims.contains(e, self.coll0(h), k)
            l = self.link0(k)
            fs = t.band(fs, imp(t.band(self.elive0(h), q), t.band(self.clive0(k), t.band(self.is1(l), e.keyeq(self.pay(l), h)))))
        for h, k in ns:
            q = prims.contains(e, mk("sel", (self.E0, h), self.NEI), k)
            fs = t.band(fs, imp(t.band(self.elive0(h), q), self.elive0(k)))
        for c in cs:
            l = self.link0(c)
            x = self.pay(l)
            if x is UNINIT:
                continue
            fs = t.band(fs, imp(t.band(self.clive0(c), self.is1(l)), t.band(self.elive0(x), prims.contains(e, self.coll0(x), c))))
        return fs

    def shrinks(self, m, path):
        """a loop only ever removes members from this set field"""
        lp = Loop(self.e, self.e.mu[m]["loop"])
        todo, seen = [self.next_of(m)], set()
        ok = True
        while todo and ok:
            x = todo.pop()
            if x is m or x in seen:
                continue
            seen.add(x)
            if x.op == "store":
                if self.e.prel(x.attr, path) != "dis":
                    v = x.args[2]
                    ok = ok and x.attr == path and all(self.sub(l, x.args[1], path) for _, l in t.leaves(v))
                todo.append(x.args[0])
            elif x.op == "ite":
                todo += x.args
            elif x.op == "mu" and "init" in self.e.mu.get(x, {}):
                ok = ok and self.shrinks(x, path)
                todo.append(self.init_of(x))
            else:
                ok = False
        return ok

    def sub(self, v, k, path):
        while v.op == "srem":
            v = v.args[0]
        return v.op == "emptyset" or v.op == "sel" and v.args[1] is k and v.attr == path

    # ---- deciding
    def infeasible(self, cond, depth=0, extra=None, subs=()):
        """None when no state that satisfies the invariant satisfies cond; else a remaining case"""
        for _ in range(4):
            f = self.facts(cond)
            if extra is not None:
                f = t.band(f, extra(cond))
            for m in subs:
                f = Subst(self.e, m, hook=self.hook).b(f)
            c2 = t.band(cond, f)
            if c2 == cond:
                break
            cond = c2
            if cond == 0:
                return None
        if cond == 0:
            return None
        eqs = [a for a in t.bsupport(cond) if a.op == "eq" and not t.bimp(cond, t.bnot(t.bvar(a)))]
        if not eqs or depth > 16:
            return cond
        a = min(eqs, key=lambda x: (all(z.op != "sym" for z in x.args), x.id))
        v = t.bvar(a)
        r = self.infeasible(t.band(cond, t.bnot(v)), depth + 1, extra, subs) if t.band(cond, t.bnot(v)) else None
        if r is not None:
            return r
        x, y = a.args
        # replace the less structured one
        if RANK.get(x.op, 1) > RANK.get(y.op, 1) or x.op == y.op and occurs(y, lambda z: z is x):
            x, y = y, x
        if occurs(y, lambda z: z is x):
            x, y = y, x
        yes = t.band(cond, v)
        if yes == 0:
            return None
        s = Subst(self.e, {x: y}, hook=self.hook)
        return self.infeasible(s.b(yes), depth + 1, extra, subs + ({x: y},))
