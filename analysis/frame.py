"""The state an operation leaves behind, looked at one generic object at a time: the value of a field of entity `a` (or of
collider `c`) for an arbitrary handle, through the stores and loops of the operation."""
from forms import *
from loops import Loop, walks, source, resolver, Subst, occurs


class View:
    def __init__(self, e, M):
        self.e, self.M = e, M
        self.memo = {}
        self.wmemo = {}

    def next_of(self, m):
        return self.e.mu[m]["next"]

    def init_of(self, m):
        return self.e.mu[m]["init"]

    # ---- which cells a loop writes
    def writes(self, m):
        """[(key, path)] of all stores a loop makes to map mu m (inner loops included); None when not understood"""
        if m in self.wmemo:
            return self.wmemo[m]
        self.wmemo[m] = []          # inner loops start from m itself
        out = []
        seen = set()
        ok = True
        todo = [self.next_of(m)]
        while todo:
            x = todo.pop()
            if x is m or x in seen:
                continue
            seen.add(x)
            if x.op == "store":
                out.append((x.args[1], x.attr))
                todo.append(x.args[0])
            elif x.op == "ite":
                todo += [x.args[0], x.args[1]]
            elif x.op == "mu" and "init" in self.e.mu.get(x, {}):
                w = self.writes(x)
                if w is None:
                    ok = False
                    break
                out += w
                todo.append(self.init_of(x))
            else:
                ok = False
                break
        self.wmemo[m] = out if ok else None
        return self.wmemo[m]

    def at(self, m, k, path, pc=1):
        """m[k].path under pc, below all writes that cannot concern it"""
        if k.op == "ite":
            return ite(k.attr, self.at(m, k.args[0], path, t.band(pc, k.attr)), self.at(m, k.args[1], path, t.band(pc, t.bnot(k.attr))))
        key = (m.id, k.id, path, pc)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._at(m, k, path, pc)
        return r

    def _at(self, m, k, path, pc):
        e = self.e
        while True:
            if pc == 0:
                return UNINIT
            if m.op == "ite":
                c = m.attr
                if t.band(pc, c) == 0:
                    m = m.args[1]
                    continue
                if t.band(pc, t.bnot(c)) == 0:
                    m = m.args[0]
                    continue
                return ite(c, self.at(m.args[0], k, path, t.band(pc, c)), self.at(m.args[1], k, path, t.band(pc, t.bnot(c))))
            if m.op == "store":
                rel = e.prel(m.attr, path)
                if rel == "dis":
                    m = m.args[0]
                    continue
                c = t.band(pc, e.keyeq(k, m.args[1]))
                if c == 0:
                    m = m.args[0]
                    continue
                if rel in ("sub", "may"):
                    # only fields below the one looked at: nothing written means nothing changed
                    return mk("sel", (m, k), path)
                hit = e.projpath(m.args[2], path[len(m.attr):], St({}, pc))
                if c == pc:
                    return hit
                return ite(e.keyeq(k, m.args[1]), hit, self.at(m.args[0], k, path, t.band(pc, t.bnot(c))))
            if m.op == "mu" and "init" in e.mu.get(m, {}):
                w = self.writes(m)
                if w is not None and all(e.prel(p, path) == "dis" or t.band(pc, e.keyeq(k, kk)) == 0 for kk, p in w):
                    m = self.init_of(m)
                    continue
                r = self.pointwise(m, k, path, pc)
                if r is not None:
                    return r
                if w is not None:
                    # all writes go to keys that stay the same: other keys are untouched
                    ks = {kk for kk, p in w if e.prel(p, path) != "dis"}
                    if not any(occurs(kk, lambda y: y.op == "mu") for kk in ks):
                        c = 0
                        for kk in ks:
                            c = t.bor(c, e.keyeq(k, kk))
                        rest = t.band(pc, t.bnot(c))
                        if rest and rest != pc:
                            return ite(c, mk("sel", (m, k), path), self.at(self.init_of(m), k, path, rest))
            return mk("sel", (m, k), path)

    def pointwise(self, m, k, path, pc):
        """the loop walks a whole collection and replaces this field of every element by a function of that element alone"""
        e = self.e
        lp = Loop(e, e.mu[m]["loop"])
        d = source(e, lp)
        if d is None or d[0] not in ("arena", "set"):
            return None
        kind, L = d
        el = walks(e, lp, L, kind)
        if el is None:
            return None
        canon = getattr(self, "canon", lambda x: x)
        el2, L2 = canon(el), canon(L)
        old = mk("sel", (m, el2), path)

        def val(x):
            """the field of the element after the round; None when something else is written"""
            if x is m:
                return old
            if x.op == "ite":
                a, b = val(x.args[0]), val(x.args[1])
                return None if a is None or b is None else ite(x.attr, a, b)
            if x.op != "store":
                return None
            if e.prel(x.attr, path) == "dis":
                return val(x.args[0])
            return x.args[2] if x.args[1] is el2 and x.attr == path else None
        new = val(self.next_of(m))
        if new is None or new is old:
            return None
        i0 = self.init_of(m)
        bad = []

        def hook(y):
            if y.op == "sel" and y.args[0] is m:
                if y.args[1] is k:
                    return self.at(i0, k, y.attr, pc)
                bad.append(y)
            return None
        v = Subst(e, {el2: k}, hook=hook)(new)
        if bad or occurs(v, lambda y: y in lp.mus or y.op == "mu" and e.mu.get(y, {}).get("loop") == lp.key):
            return None
        mem = self.live(L2, k, pc) if kind == "arena" else prims.contains(e, L2, k)
        return ite(mem, v, self.at(i0, k, path, pc))

    # ---- liveness
    def live(self, L, k, pc=1):
        e = self.e
        while True:
            if L.op == "ite":
                return t.bite(L.attr, self.live(L.args[0], k, pc), self.live(L.args[1], k, pc))
            if L.op == "lins":
                return t.bor(e.keyeq(L.args[1], k), self.live(L.args[0], k, pc))
            if L.op == "lrem":
                return t.band(t.bnot(e.keyeq(L.args[1], k)), self.live(L.args[0], k, pc))
            if L.op == "mu" and "init" in e.mu.get(L, {}):
                r = self.removed(L)
                if r is not None:
                    c = 0
                    for S in r:
                        c = t.bor(c, prims.contains(e, S, k))
                    return t.band(self.live(self.init_of(L), k, pc), t.bnot(c))
            return prims.live(e, L, k)

    def removed(self, L):
        """the loop removes exactly the members of these sets: it walks a set to its end and removes each element"""
        e = self.e
        lp = Loop(e, e.mu[L]["loop"])
        d = source(e, lp)
        if d is None or d[0] != "set":
            return None
        S = d[1]
        el = walks(e, lp, S, "set")
        if el is None:
            return None
        canon = getattr(self, "canon", None)
        if canon:
            el, S = canon(el), canon(S)
        nx = self.next_of(L)
        # removing something that is not there changes nothing
        lv = prims.live(e, L, el)
        if nx.op == "ite" and nx.attr == lv and nx.args[1] is L:
            nx = nx.args[0]
        if nx.op == "lrem" and nx.args[0] is L and nx.args[1] is el:
            return [S]
        return None


def leaf_paths(M, tid, depth=3):
    """[(field names, projection path)] of the scalar/vector fields of a struct"""
    out = []

    def go(tid, names, path, d):
        ty = M.d.types[tid]
        if ty["k"] == "adt" and ty["adt"] == "struct" and ty["local"] and d:
            for f in ty["variants"][0]["f"]:
                go(f["t"], names + (f["n"],), path + (M.d.fproj(tid, f["n"]),), d - 1)
        else:
            out.append((names, path))
    go(tid, (), (), depth)
    return out
