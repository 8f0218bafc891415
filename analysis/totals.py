"""Closed forms of what an operation accumulates over the members of a set: accumulators become `total(S, term of one
member)`, `leave the loop when some member is Q` and `flag |= Q` become `exists(S, Q)`, and fields a loop accumulates in
an object become the value before plus the total."""
from world import *
from loops import source, exists


class Totals:
    def __init__(self, W, pc=None):
        self.W, self.e = W, W.e
        self.pc = W.pc if pc is None else pc
        self.memo = {}
        self.sub = Subst(self.e, hook=self.hook)
        self.bad = set()

    def __call__(self, x):
        return self.sub(self.W.canon(x))

    def b(self, c):
        return self.sub.b(self.W.canon.b(c))

    def idx(self, S):
        return mk("idx", (S,))

    def scan(self, lp):
        """(counter, set, exists-condition)"""
        r = self.memo.get(lp.key)
        if r is not None:
            return r or None
        self.memo[lp.key] = False
        sc = lp.scan()
        if sc is None:
            return None
        c, kind, S, q = sc
        el = None
        if kind != "set":
            s = source(self.e, lp)      # a list of the members
            if s is None or s[0] != "set":
                return None
            el = walks(self.e, lp, s[1], "set")
            S = s[1]
        S = self(S)
        if q:
            q = self.one(lp, S, c, t.frombdd(t.bcof(q, mk("more", (sc[2], c)), 1)))
            q = t.bcons(t.tobdd(q), self.b(lp.entry)) if isinstance(lp.entry, int) and lp.entry > 1 else t.tobdd(q)
            q = self.drop(q)
        ex = exists(S, q)
        self.memo[lp.key] = (c, S, ex)
        return self.memo[lp.key]

    def drop(self, q):
        """without what does not concern the member"""
        for a in t.bsupport(q):
            if not occurs(a, lambda y: y.op == "idx"):
                q = t.bor(t.bcof(q, a, 1), t.bcof(q, a, 0))
        return q

    def one(self, lp, S, c, x):
        """a term of the current round as a term of the member idx(S)"""
        W = self.W
        x = W.canon(x)
        x = Subst(self.e, {mk("sitem", (S, c)): self.idx(S), c: self.idx(S)}, hook=self.member)(x)
        x = Subst(self.e, {mk("sitem", (S, self.idx(S))): self.idx(S)}, hook=self.member)(x)
        return self.sub(x)

    def member(self, x):
        """members of an entity's set are live colliders, and not one that was taken out"""
        W = self.W
        k = None
        if x.op == "live" and x.args[1].op == "idx":
            L, k = x.args
            S = k.args[0]
            if self.livein(L, S):
                return TRUE
        if x.op == "eq":
            for a, b in (x.args, x.args[::-1]):
                if a.op == "idx" and self.without(a.args[0], b):
                    return FALSE
        return None

    def livein(self, L, S):
        if L.op == "ite":
            return self.livein(L.args[0], S) and self.livein(L.args[1], S)
        if L.op == "lrem":
            return self.without(S, L.args[1]) and self.livein(L.args[0], S)
        if L.op == "lins":
            return self.livein(L.args[0], S)
        return L is self.W.LC0 and self.livemembers(S)

    def without(self, S, k):
        while S.op == "srem":
            if S.args[1] is k:
                return True
            S = S.args[0]
        return False

    def livemembers(self, S):
        W = self.W
        while S.op in ("srem", "sins", "ite"):
            if S.op == "ite":
                return all(self.livemembers(x) for x in S.args)
            if S.op == "sins" and t.band(self.pc, t.bnot(W.clive0(S.args[1]))):
                return False
            S = S.args[0]
        return S.op == "sel" and S.attr == W.COLL and S.args[0] is W.E0

    # ---- mus
    def hook(self, x):
        if x.op == "mu" and "init" in self.e.mu.get(x, {}):
            return self.closed(x)
        if x.op == "sel" and x.args[0].op == "mu" and "init" in self.e.mu.get(x.args[0], {}):
            return self.field(x)
        if x.op == "more" and x.attr is None and x.args[1].op == "mu":
            lp = Loop(self.e, self.e.mu[x.args[1]]["loop"])
            s = self.scan(lp)
            if s and s[0] is x.args[1]:
                return t.frombdd(s[2])
        if x.op == "user":
            return self.method(x)
        return None

    def method(self, x):
        """what a collider method returns does not depend on the collider's link (nor on stores to other colliders)"""
        W = self.W
        a = x.args[0]
        if a.op == "sel" and a.attr == ():
            m, k = a.args
            while m.op == "store" and (self.W.e.keyeq(m.args[1], k) == 0 or tuple(p[:2] for p in m.attr[:2]) in LINKS(W)):
                m = m.args[0]
            if m is not a.args[0]:
                y = mk("user", (mk("sel", (m, k), ()),) + x.args[1:], x.attr)
                if x.id in alg.KIND:
                    alg.setkind(y, alg.KIND[x.id])
                return y
        return None

    def closed(self, m):
        lp = Loop(self.e, self.e.mu[m]["loop"])
        s = self.scan(lp)
        if s is None:
            return None
        c, S, ex = s
        if m is c:
            return None
        key = ("closed", m)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        init = self(lp.init(m))
        nx = self.W.next_of(m)
        r = None
        if t.is_bool(init) and init.op in ("b", "cond") or init in (TRUE, FALSE):
            q = t.tobdd(nx)
            me = t.bvar(m)
            if t.bcof(q, m, 1) == 1 and t.tobdd(init) == 0:
                qq = t.tobdd(self.one(lp, S, c, t.frombdd(t.bcof(q, m, 0))))
                r = t.frombdd(t.bor(ex, exists(S, qq)))
        else:
            d = self.delta(nx, m)
            if d is not None and not occurs(d, lambda y: y is m):
                d = self.one(lp, S, c, d)
                r = t.add(init, mk("total", (S, d)))
                if ex:
                    r = ite(ex, m, r)
        if r is not None:
            self.copykind(m, r)
        self.memo[key] = r
        return r

    def copykind(self, m, r):
        a = Alg(self.e)
        k = a.kind(m)
        if k in ("s", "v", "m"):
            alg.setkind(r, k)

    def delta(self, nx, m):
        """X with nx == m + X"""
        if nx is m:
            return t.cflt("0.0")
        if nx.op == "add":
            for i in (0, 1):
                if nx.args[i] is m:
                    return nx.args[1 - i]
                d = self.delta(nx.args[i], m) if nx.args[i].op == "add" else None
                if d is not None:
                    return t.add(d, nx.args[1 - i])
        return None

    def before(self, m, d):
        """what the term reads from the objects a loop changes, in fields it does not change"""
        bad = []

        def hook(y):
            if y.op == "sel" and y.args[0] is m:
                z = self.W.at(m, y.args[1], y.attr, self.W.pc)
                if occurs(z, lambda q: q is m):
                    bad.append(y)
                return z
            return None
        r = Subst(self.e, hook=hook)(d)
        return None if bad else r

    def field(self, x):
        """a field of one object that a full walk accumulates"""
        m, k = x.args
        key = ("field", x)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        lp = Loop(self.e, self.e.mu[m]["loop"])
        s = self.scan(lp)
        if s is None or occurs(k, lambda y: y in lp.mus):
            return None
        c, S, ex = s
        W = self.W
        nx = W.at(W.next_of(m), k, x.attr, W.pc)
        d = None
        w = W.writes(m)
        if w is None:
            return None
        nx = restrict(nx, W.pc)
        d = self.delta(nx, x)
        if d is None or occurs(d, lambda y: y is x):
            return None
        i0 = W.init_of(m)
        other = self.before(m, d)
        r = None
        if other is not None:
            init = self(W.at(i0, k, x.attr, W.pc))
            if d.op == "f" and float(d.attr) == 0:
                r = init
            else:
                r = t.add(init, mk("total", (S, self.one(lp, S, c, other))))
                if ex:
                    r = ite(ex, x, r)
                self.copykind(x, r)
        self.memo[key] = r
        return r


def LINKS(W):
    r = getattr(W, "_links", None)
    if r is None:
        r = W._links = {tuple(p[:2] for p in lp) for lp in W.lp.values()}
    return r
