"""Loop rules on the loop summaries of the engine (every location a loop changes is a `mu` with its
value at entry, `init`, and after one more round, `next`):
 * full iteration: the loop's only exit is the end of the collection it walks,
 * push lists: a vector filled once per round, so that element k is the value pushed in round k,
 * selections: a group of variables all overwritten under one condition and never otherwise, so that
   after the loop they hold either their initial values or the values of one (witness) round,
 * sums: z + delta per round.
Plus substitution of subterms with re-canonicalisation."""
from model import *
from alg import Alg
import alg


class Subst:
    """rebuild a term with subterms replaced; every decision implied by `pc` is taken"""

    def __init__(self, e, mp=None, pc=1, hook=None):
        self.e, self.mp, self.pc, self.hook = e, {k.id: v for k, v in (mp or {}).items()}, pc, hook
        self.memo, self.bm = {}, {}

    def __call__(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self.mp.get(x.id)
            if r is None:
                r = self.go(x)
                if self.hook:
                    h = self.hook(r)
                    if h is not None:
                        r = h
                if r is not x and x.id in alg.KIND and r.op != "ref":
                    alg.setkind(r, alg.KIND[x.id])
            self.memo[x.id] = r
        return r

    def b(self, n):
        if n < 2:
            return n
        r = self.bm.get(n)
        if r is None:
            v, lo, hi = t.S.node[n]
            a = self.b_atom(t.S.varterm[v])
            r = t.bite(a, self.b(hi), self.b(lo))
            if self.pc != 1:
                r = self.red(r)
            self.bm[n] = r
        return r

    def red(self, r):
        if r > 1 and self.pc != 1:
            c = t.bcons(r, self.pc)
            if c < 2:
                return c
        return r

    def b_atom(self, a):
        return self.red(t.tobdd(self(a)))

    def go(self, x):
        op = x.op
        if op in ("sym", "i", "f", "b", "uninit", "mu", "const", "emptymap", "emptyset", "nolive", "qnew", "fnitem", "newh"):
            return x
        if op == "ite":
            c = self.red(self.b(x.attr))
            if c == 1:
                return self(x.args[0])
            if c == 0:
                return self(x.args[1])
            return ite(c, self(x.args[0]), self(x.args[1]))
        if op == "cond":
            return t.frombdd(self.red(self.b(x.attr)))
        if op == "ref":
            root, projs = x.attr
            root2 = tuple(self(r) if isinstance(r, t.T) else r for r in root)
            return mkref(root2, tuple(self.proj(p) for p in projs))
        args = [self(a) for a in x.args]
        if op == "exists":
            q = self.b(x.attr)
            return t.frombdd(exists(args[0], q))
        if op == "sel":
            path = tuple(self.proj(p) for p in x.attr)
            return self.e.mksel(args[0], args[1], path, St({}, self.pc))
        if op == "store":
            path = tuple(self.proj(p) for p in x.attr)
            return mk("store", args, path)
        if all(a is b for a, b in zip(args, x.args)):
            r = self.atom(x, args)
            return r if r is not None else x
        if op == "agg":
            return agg(x.attr, args)
        if op == "add":
            return t.add(*args)
        if op == "mul":
            return t.mul(*args)
        if op == "div":
            return t.div(*args)
        if op == "neg":
            return t.neg(args[0])
        if op == "mm":
            return t.mm(*args)
        if op == "dot":
            return t.dot(*args)
        if op == "cross":
            return t.cross(*args)
        if op == "norm":
            return t.norm(args[0])
        if op == "normalize":
            return t.normalize(args[0])
        if op == "abs":
            return t.mapite(args[0], t.fabs)
        if op == "lin":
            c, co = x.attr
            r = cint(c)
            for a, k in zip(args, co):
                r = t.iadd(r, t.imul(cint(k), a))
            return r
        if op == "imul":
            return t.imul(*args)
        if op.startswith("iop:"):
            return t.mapite(args[0], lambda a: t.mapite(args[1], lambda b: t.iop(op[4:], a, b)))
        if op == "fld":
            return self.fld(args[0], x.attr)
        if op == "as":
            return t.mapite(args[0], lambda y: self.e.project(y, ("v", x.attr)) if isinstance(x.attr, int) else self.e.project(y, ("dyn", x.attr)))
        r = self.atom(x, args)
        if r is not None:
            return r
        return mk(op, args, x.attr)

    def fld(self, a, i):
        def one(y):
            if y.op == "agg":
                return y.args[i] if i < len(y.args) else UNINIT
            if y.op == "neg":
                return t.neg(self.fld(y.args[0], i))
            if y.op == "sel":
                return self.e.mksel(y.args[0], y.args[1], y.attr + (("f", i, 0, ""),))
            return mk("fld", (y,), i)
        return t.mapite(a, one)

    def proj(self, p):
        return tuple(self(y) if isinstance(y, t.T) else y for y in p)

    def atom(self, x, args):
        """boolean atoms"""
        op = x.op
        e = self.e
        if op == "lt":
            f = t.ilt if x.attr == "i" else t.flt
            if x.attr == "i":
                r = self.iboth(lambda a: t.ilt(cint(0), a), args[1])
            else:
                r = e.fcmp(t.flt, args[0], args[1])
        elif op == "le":
            r = e.fcmp(t.fle, args[0], args[1])
        elif op == "feq":
            r = e.fcmp(t.feq, args[0], args[1])
        elif op == "ieq":
            r = self.iboth(lambda a: t.ieq(a, cint(0)), args[0])
        elif op == "eq":
            r = t.frombdd(e.keyeq(args[0], args[1]))
        elif op == "contains":
            r = t.frombdd(prims.contains(e, args[0], args[1]))
        elif op == "live":
            r = t.frombdd(prims.live(e, args[0], args[1]))
        elif op == "is":
            c = 0
            for lc, l in t.leaves(args[0]):
                if l is UNINIT:
                    continue
                v = t.variant_of(l) if l.op == "agg" else None
                y = (1 if v == x.attr else 0) if v is not None else t.bvar(mk("is", (l,), x.attr))
                c = t.bor(c, t.band(lc, y))
            r = t.frombdd(c)
        elif op == "isdyn":
            r = t.mapite(args[0], lambda y: (t.TRUE if t.base_tag(y.attr) == x.attr else t.FALSE) if y.op == "agg" else mk("isdyn", (y,), x.attr))
        elif op == "batom":
            r = t.mapite(args[0], lambda y: t.fclass(y, x.attr) if x.attr in ("isfin", "isinf", "isnan") else mk("batom", (y,) + tuple(args[1:]), x.attr))
        elif op == "more" and x.attr is None and args[0].op == "emptyset":
            r = t.FALSE
        else:
            return None
        if self.pc != 1 and t.is_bool(r):
            b = t.tobdd(r)
            c = self.red(b)
            if c != b:
                return t.frombdd(c)
        return r

    def iboth(self, f, a):
        return t.mapite(a, f)


def subst(e, x, mp=None, pc=1, hook=None):
    return Subst(e, mp, pc, hook)(x)


def exists(S, q):
    """condition (BDD): some member of S, named idx(S) in q, satisfies q"""
    if q == 0:
        return 0
    k = mk("idx", (S,))
    for a in t.bsupport(q):
        if not free(a, k):          # what does not depend on the member is decided outside
            yes, no = exists(S, t.bcof(q, a, 1)), exists(S, t.bcof(q, a, 0))
            if a.op == "exists" and a.args[0] is S and t.bimp(a.attr, t.bcof(q, a, 1)):
                yes = 1
            return t.bite(t.bvar(a), yes, no)
    return t.bvar(mk("exists", (S,), q))


def binds(y, k):
    """y sums or quantifies over the members k stands for"""
    return y.op in ("total", "exists") and y.args[0] is k.args[0]


def free(x, k):
    """the member k = idx(S) occurs outside sums over S"""
    return occurs(x, lambda y: y is k, stop=lambda y: binds(y, k))


def occurs(x, pred, seen=None, stop=None):
    """some subterm (conditions included) satisfies pred; nothing below a `stop` term is looked at"""
    seen = set() if seen is None else seen
    st = [x]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if pred(y):
            return True
        if stop and stop(y):
            continue
        st.extend(y.args)
        if y.op in ("ite", "cond", "exists"):
            st.extend(t.bsupport(y.attr))
        elif y.op == "ref":
            st.extend(z for z in y.attr[0] if isinstance(z, t.T))
            for p in y.attr[1]:
                st.extend(z for z in p if isinstance(z, t.T))
        elif y.op in ("sel", "store"):
            for p in y.attr:
                st.extend(z for z in p if isinstance(z, t.T))
    return False


def submus(e, x):
    """all mus a term is made of"""
    out = set()
    occurs(x, lambda y: out.add(y) if y.op == "mu" else False)
    return out


class Loop:
    def __init__(self, e, key):
        self.e, self.key = e, key
        self.info = e.loopinfo[key]
        self.mus = self.info["mus"]
        self.back = self.info["back"]
        self.backst = self.info["backst"]
        self.head = self.info["head"]
        self.entry = self.info["entry"]
        self.stack = self.info["stack"]
        self._it = 0

    def where(self):
        return "%s (%s)" % (self.info["fn"].split("::", 1)[-1], self.info["site"][1].split("/")[-1])

    def nxt(self, m):
        """value after a round, given that the round completes"""
        return t.simp(subst_simp(self.mus[m]["next"], self.back), self.back)

    def init(self, m):
        return self.mus[m]["init"]

    def counters(self):
        """mus advanced by exactly one in every completed round"""
        return {m: self.init(m) for m in self.mus if self.mus[m].get("next") is not None and isint(self.init(m)) and t.iadd(self.nxt(m), m, -1) is cint(1)}

    def exitcond(self):
        r = 0
        for s in self.info["exits"]:
            r = t.bor(r, s.pc)
        return r

    def driver(self):
        """(counter, kind, collection): the collection this loop walks from its first element; None if the loop can leave early.
        kind 'vec' (collection = length term), 'range', 'arena' or 'set'"""
        if self._it != 0:
            return self._it
        self._it = None
        cs = self.counters()
        go = self.back
        sup = t.bsupport(go)
        for m, i0 in cs.items():
            for a in sup:
                x = t.bvar(a)
                if not t.bimp(go, x):
                    continue
                # leaving only when the walk is over
                if t.band(self.exitcond(), x) != 0:
                    continue
                if a.op == "more" and a.attr is None and a.args[1] is m:
                    k = a.args[0]
                    self._it = (m, "arena" if k.op in ("lins", "lrem", "nolive") or self.isarena(k, m) else "set", k)
                    return self._it
                if a.op == "lt" and a.attr == "i":
                    c, d = t.lin(a.args[1])
                    if d.get(m) == -1:
                        n = t.iadd(a.args[1], m)
                        if not occurs(n, lambda y: y in self.mus):
                            self._it = (m, "count", n)
                            return self._it
        return None

    def isarena(self, k, m):
        if ("aitem", k.id, m.id) in ARENAS:
            return True
        return any(y.op == "aitem" and y.args[0] is k for y in t.S.all)

    def scan(self):
        """(counter, kind, collection, Q): walks the collection until an element satisfies Q (0: to its end)"""
        d = self.driver()
        if d:
            return d + (0,)
        for m in self.counters():
            for a in t.bsupport(self.back):
                x = t.bvar(a)
                if a.op == "more" and a.attr is None and a.args[1] is m and t.bimp(self.back, x):
                    q = t.band(self.exitcond(), x)
                    return m, "arena" if self.isarena(a.args[0], m) else "set", a.args[0], q
        return None

    def early(self):
        return self.driver() is None


ARENAS = set()


def isint(x):
    return x.op in ("i", "lin") or x.op in ("sym", "mu", "fld", "slen", "alen")


def subst_simp(x, pc):
    """take the decisions implied by pc anywhere at the top ites / aggs"""
    return restrict(x, pc)


def exitval(lp, m):
    """the mu itself denotes the value at the loop's (only) exit when every exit leaves it unchanged"""
    return m


# ---------------------------------------------------------------- push lists
def pushlist(e, lp, mmap):
    """mmap: a vector's contents filled by lp, one element per completed round -> (length mu, value) or None"""
    if mmap not in lp.mus:
        return None
    nx = lp.nxt(mmap)
    if nx.op != "store" or nx.args[0] is not mmap or nx.attr != ():
        return None
    ln = nx.args[1]
    if ln not in lp.mus or lp.init(ln) is not cint(0) or t.iadd(lp.nxt(ln), ln, -1) is not cint(1):
        return None
    return ln, nx.args[2]


def element(e, mmap, k):
    """value pushed in round k of the loop that filled mmap (k below the length); None when mmap is not a push list.
    Other loop variables in it are left standing for `their value in round k`: only counters are resolved."""
    if mmap.op != "mu":
        return None
    lp = Loop(e, e.mu[mmap]["loop"])
    r = pushlist(e, lp, mmap)
    if r is None:
        return None
    mp = {}
    for c, i0 in lp.counters().items():
        mp[c] = t.iadd(i0, k)
    v = subst(e, r[1], mp)
    return lp, v


def resolver(e):
    """hook for Subst: element reads of push lists become the pushed values, when these depend on counters only"""
    def hook(x):
        if x.op == "sel" and x.args[0].op == "mu":
            m = x.args[0]
            # a map whose written paths do not touch the one read: look at its value at entry
            r = element(e, m, x.args[1])
            if r is not None:
                lp, v = r
                y = e.projpath(v, x.attr, St({}, 1))
                if not occurs(y, lambda z: z in lp.mus):
                    return y
                # the index may well depend on the length of the list
                if not occurs(e.projpath(element(e, m, t.sym("any index"))[1], x.attr, St({}, 1)), lambda z: z in lp.mus):
                    return y
        return None
    return hook


# ---------------------------------------------------------------- sums
class Sums:
    """closed forms of accumulators: z + sum of deltas, linear in the per-round quantities"""

    def __init__(self, e, alg_):
        self.e, self.a = e, alg_

    def variant(self, lp):
        mus = set(lp.mus)
        for k in self.e.loopinfo:
            if lp.key in Loop(self.e, k).stack:
                mus |= set(self.e.loopinfo[k].get("mus", ()))
        memo = {}

        def var(nf):
            """nested-tuple normal form mentions a loop variable"""
            if isinstance(nf, tuple):
                if len(nf) == 2 and nf[0] == "t":
                    return occurs(t.S.all[nf[1]], lambda y: y in mus)
                r = memo.get(nf)
                if r is None:
                    r = memo[nf] = any(var(y) for y in nf)
                return r
            return False
        return var

    def vsum(self, lp, nf):
        """sum over the rounds of a vector normal form"""
        var = self.variant(lp)
        key = tuple(str(x) for x in lp.key)
        out = {}
        for at, co in nf.items():
            for mono, c in co.items():
                inv = tuple(f for f in mono if not var(f))
                vr = tuple(f for f in mono if var(f))
                out = alg.vadd(out, alg.vscale(self.vatom(key, var, at, vr), {inv: c}))
        return out

    def vatom(self, key, var, at, vr):
        if not vr:
            if not var(at):
                return {at: alg.atom(("count", key))}
            if at[0] == "cross" and not var(at[1]):
                return alg.vcross({at[1]: alg.ONE}, self.vatom(key, var, at[2], ()))
            if at[0] == "cross" and not var(at[2]):
                return alg.vcross(self.vatom(key, var, at[1], ()), {at[2]: alg.ONE})
            if at[0] == "mv" and not var(at[1]):
                return alg.mvec({at[1]: alg.ONE}, self.vatom(key, var, at[2], ()))
        elif not var(at):
            return {at: alg.atom(("sum", key, (((vr, alg.F(1))),)))}
        return {("sum", key, at, vr): alg.ONE}

    def ssum(self, lp, nf):
        var = self.variant(lp)
        key = tuple(str(x) for x in lp.key)
        out = {}
        for mono, c in nf.items():
            inv = tuple(f for f in mono if not var(f))
            vr = tuple(f for f in mono if var(f))
            s = alg.atom(("sum", key, vr)) if vr else alg.atom(("count", key))
            out = alg.sadd(out, alg.smul(s, {inv: c}))
        return out

    def msum(self, lp, nf):
        var = self.variant(lp)
        key = tuple(str(x) for x in lp.key)
        out = {}
        for w, co in nf.items():
            for mono, c in co.items():
                inv = tuple(f for f in mono if not var(f))
                vr = tuple(f for f in mono if var(f))
                # invariant letters on either side come out
                i = 0
                while i < len(w) and not var(w[i]):
                    i += 1
                j = len(w)
                while j > i and not var(w[j - 1]):
                    j -= 1
                if i == j and not vr:
                    x = {w: alg.atom(("count", key))}
                elif i == j:
                    x = {w: alg.atom(("sum", key, vr))}
                else:
                    x = {w[:i] + (("sum", key, w[i:j], vr),) + w[j:]: alg.ONE}
                out = alg.vadd(out, alg.vscale(x, {inv: c}))
        return out

    def total(self, lp, m):
        """normal form of accumulator m of lp after a full walk; (kind, nf) or None"""
        k = self.a.kind(m)
        nx = lp.nxt(m)
        f = {"s": self.a.s, "v": self.a.v, "m": self.a.m}.get(k)
        if f is None:
            return None
        old = {"s": alg.atom(("t", m.id)), "v": {("t", m.id): alg.ONE}, "m": {(("t", m.id),): alg.ONE}}[k]
        d = f(nx)
        if self.a.open is not None:
            return None
        d = (alg.sadd if k == "s" else alg.vadd)(d, old, alg.F(-1))

        def has(z):
            if isinstance(z, dict):
                return any(has(q) or has(w) for q, w in z.items())
            if isinstance(z, tuple):
                if z == ("t", m.id):
                    return True
                if len(z) == 2 and z[0] == "t":
                    return occurs(t.S.all[z[1]], lambda y: y is m)
                return any(has(q) for q in z)
            return False
        if has(d):
            return None
        z = f(lp.init(m))
        s = {"s": self.ssum, "v": self.vsum, "m": self.msum}[k](lp, d)
        return k, (alg.sadd if k == "s" else alg.vadd)(z, s)


class SetSums(Sums):
    """sums over the members of a set, whatever loop computes them"""

    def __init__(self, alg_, S):
        self.a, self.key = alg_, ("set", S.id)
        self.idx = mk("idx", (S,))

    def variant(self, lp):
        idx, memo = self.idx, {}

        def var(nf):
            if isinstance(nf, tuple):
                if len(nf) == 2 and nf[0] == "t":
                    return free(t.S.all[nf[1]], idx)
                if nf[:1] == ("sum",) and nf[1] == (str(self.key[0]), str(self.key[1])):
                    return False        # a sum over the same set: its member is another one
                r = memo.get(nf)
                if r is None:
                    r = memo[nf] = any(var(y) for y in nf)
                return r
            return False
        return var


# ---------------------------------------------------------------- whole-collection walks
def walks(e, lp, L, kind="arena"):
    """the loop visits every element of collection L (an arena's live set, or a set) exactly once, in order, leaving only at its
    end -> term of the element of the current round, else None. Follows a list filled by an earlier walk."""
    d = lp.driver()
    if d is None:
        return None
    c, k, coll = d
    if k in ("arena", "set"):
        if coll is not L or lp.init(c) is not cint(0):
            return None
        return mk("aitem" if kind == "arena" else "sitem", (L, c))
    if k == "count" and coll.op == "mu" and lp.init(c) is cint(0):
        # the length of a list pushed once per round of a walk over L
        lp2 = Loop(e, e.mu[coll]["loop"])
        if coll not in lp2.mus:
            return None
        if lp2.init(coll) is not cint(0) or t.iadd(lp2.nxt(coll), coll, -1) is not cint(1):
            return None
        x = walks(e, lp2, L, kind)
        if x is None:
            return None
        return subst(e, x, {lp2.driver()[0]: c})
    return None


def source(e, lp):
    """(kind, collection) lp walks to its end, directly or through a list of its elements; None if it may leave early"""
    n = 0
    while n < 5:
        d = lp.driver()
        if d is None:
            return None
        if d[1] != "count" or d[2].op != "mu" or d[2] not in e.mu:
            return d[1], d[2]
        lp = Loop(e, e.mu[d[2]]["loop"])
        n += 1
    return None


def stores(x, base, pc=1, e=None):
    """[(cond, key, path, value)] of the conditional stores that lead from map `base` to map `x`; None if it is not such a chain.
    With an engine, what a finished loop writes on the way is listed with no key"""
    out = []
    seen = {}

    def go(x, c):
        if x is base or c == 0:
            return True
        if x.op == "store":
            out.append((c, x.args[1], x.attr, x.args[2]))
            return go(x.args[0], c)
        if x.op == "ite":
            return go(x.args[0], t.band(c, x.attr)) and go(x.args[1], t.band(c, t.bnot(x.attr)))
        if e is not None and x.op == "mu" and e.mupaths.get(x) is not None and "init" in e.mu[x] and x not in seen:
            seen[x] = 1
            for p in e.mupaths[x]:
                out.append((c, None, p, None))
            return go(e.mu[x]["init"], c)
        return e is not None and x in seen
    return out if go(x, pc) else None


def roundcond(lp, sub=None):
    """condition under which a round of lp takes place"""
    d = lp.driver()
    if d[1] in ("arena", "set"):
        b = t.bvar(mk("more", (d[2], d[0])))
    else:
        b = t.tobdd(t.ilt(d[0], d[2]))
    return sub.b(b) if sub else b


def finished(e, active=(), sub=None):
    """what is known outside a loop: its last round is over"""
    r = 1
    for k in e.loopinfo:
        if k in active or "exits" not in e.loopinfo[k] or e.loopinfo[k].get("backst") is None:
            continue
        lp = Loop(e, k)
        d = lp.driver()
        if d is None:
            continue
        r = t.band(r, t.bnot(roundcond(lp, sub)))
    return r
