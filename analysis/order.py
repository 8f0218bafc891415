"""Conditions that compare floats: which truth values of the atoms `a < b`, `a <= b`, `a == b`, is_nan, is_finite,
is_infinite can occur together. Operands are compared up to real algebra; every direction (difference of the two
operands up to a positive factor) is split at the constants it is compared with, plus the infinities and NaN."""
from fractions import Fraction as F
import terms as t
from terms import mk
import alg
from alg import Alg

FATOMS = ("isnan", "isfin", "isinf")


def split(A, x):
    """atom -> (direction key, kind, constant) or None"""
    if x.op == "lt" and x.attr == "i" or x.op == "ieq":
        c, d = t.lin(x.args[-1])
        key = tuple(sorted(((k.id, v) for k, v in d.items())))
        if x.op == "ieq":
            s = 1 if key[0][1] > 0 else -1
            return ("i", tuple((k, s * v) for k, v in key)), "eq", -s * c
        if key[0][1] > 0:
            return ("i", key), "gt", -c
        return ("i", tuple((k, -v) for k, v in key)), "lt", c
    if x.op in ("lt", "le") and x.attr == "f" or x.op == "feq":
        if A.kind(x.args[0]) in ("v", "m", "q"):
            return None
        d = alg.sadd(A.s(x.args[0]), A.s(x.args[1]), F(-1))
        # infinite operands: x < inf and the like
        for inf, o in ((0, 1), (1, 0)):
            y = x.args[inf]
            if y.op == "f" and y.attr in ("inf", "-inf"):
                z = A.s(x.args[o])
                key, c = direction(z)
                if key is None:
                    return None
                flip = y.attr == "-inf"
                if key[1] < 0:
                    flip = not flip
                if c:
                    return None
                return key[0], ("inf", x.op, inf, flip), None
        key, c = direction(d)
        if key is None:
            return None
        k, sign = key
        # d = sign*(dir) + c0 < 0   with dir scaled to leading coefficient one
        if x.op == "feq":
            return k, "eq", c
        if sign > 0:
            return k, "lt" if x.op == "lt" else "le", c
        return k, "gt" if x.op == "lt" else "ge", c
    if x.op == "batom" and x.attr in FATOMS and x.args:
        z = A.s(x.args[0]) if A.kind(x.args[0]) not in ("v", "m", "q") else None
        if z is None:
            return None
        key, c = direction(z)
        if key is None or c:
            return None
        return key[0], x.attr, None
    return None


def direction(d):
    """d = s*|k|*(dir - c): -> ((dir, s), c)"""
    const = d.get((), F(0))
    r = {m: k for m, k in d.items() if m != ()}
    if not r:
        return None, None
    f = alg.freeze(r)
    k = f[0][1]
    r = alg.sscale(r, F(1) / k)
    return (alg.freeze(r), 1 if k > 0 else -1), -const / k


def theory(A, bdds, extra=()):
    """condition that holds for every possible combination of the float atoms in these conditions"""
    atoms = set(extra)
    for b in bdds:
        atoms |= t.bsupport(b)
    groups = {}
    for a in sorted(atoms, key=lambda x: x.id):
        s = split(A, a)
        if s:
            groups.setdefault(s[0], []).append((a, s[1], s[2]))
    T = 1
    for key, l in groups.items():
        pts = sorted({c for _, _, c in l if c is not None})
        regs = ["nan", "-inf", "+inf"]
        prev = None
        for c in pts:
            regs.append((prev, c))
            regs.append(c)
            prev = c
        regs.append((prev, None))
        if key[0] == "i":        # integers; unsigned sums are never negative
            regs = sorted({c + i for c in pts for i in (-1, 0, 1)})
            if all(v > 0 for _, v in key[1]):
                regs = [g for g in regs if g >= 0]
        r = 0
        for g in regs:
            x = 1
            for a, kind, c in l:
                v = value(kind, c, g)
                b = t.bvar(a)
                x = t.band(x, b if v else t.bnot(b))
            r = t.bor(r, x)
        T = t.band(T, r)
    return T


def value(kind, c, g):
    if isinstance(kind, tuple):         # comparison with an infinity
        _, op, inf, flip = kind
        if g == "nan":
            return False
        big = "-inf" if flip else "+inf"
        at = g == big
        if op == "feq":
            return at
        # inf==0: INF op x ; inf==1: x op INF
        hi = (inf == 1) != flip         # x on the smaller side
        if op == "le":
            return True if hi else at
        return (not at) if hi else False
    if kind == "isnan":
        return g == "nan"
    if kind == "isinf":
        return g in ("-inf", "+inf")
    if kind == "isfin":
        return g not in ("nan", "-inf", "+inf")
    if g == "nan":
        return False
    if g == "-inf":
        return kind in ("lt", "le")
    if g == "+inf":
        return kind in ("gt", "ge")
    if isinstance(g, tuple):
        lo, hi = g
        if lo is None and hi is None:
            s = 0
            return False
        s = 1 if (hi is None or (lo is not None and lo >= c)) else -1
    else:
        s = (g > c) - (g < c)
    return {"lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0, "eq": s == 0}[kind]


def equivalent(e, a, b, pc=1):
    """None if the conditions agree wherever pc holds, else a condition under which they differ"""
    A = Alg(e)
    x = t.band(pc, t.bor(t.band(a, t.bnot(b)), t.band(b, t.bnot(a))))
    if x == 0:
        return None
    x = noabs(x)
    x = t.band(x, theory(A, [x]))
    if x == 0:
        return None
    # atoms up to algebra
    y = A.canon(x)
    if y and alg.FINITE[0]:
        y = t.band(y, linear(t.bsupport(y)))
        if y:
            y = ties(e, A, x, y)
    return None if y == 0 else x


def ties(e, A, x, y, done=()):
    """x, with canonical form y, without the cases in which symbols equal constants and these constants in their places make x impossible"""
    import loops
    for a in sorted(t.bsupport(x), key=lambda a: a.id):
        if a.op != "lt" or a.attr != "f":
            continue
        for s, c in (a.args, a.args[::-1]):
            if s.op != "sym" or c.op != "f":
                continue
            eq = t.bnot(t.bor(t.tobdd(t.flt(s, c)), t.tobdd(t.flt(c, s))))
            z = t.band(x, eq)
            if z == 0 or t.band(y, A.canon(eq)) == 0:
                continue
            z = loops.Subst(e, {s: c}).b(z)
            w = A.canon(z)
            if w:
                w = t.band(w, linear(t.bsupport(w)))
            if w and len(done) < 6:
                w = ties(e, A, z, w, done + (s,))
            if w:
                return w
            x = t.band(x, t.bnot(eq))
            y = t.band(y, t.bnot(A.canon(eq)))
            if y == 0:
                return y
    return y


def linear(atoms):
    """real numbers: two or three of the atoms `f < 0` (or their negations) that add up to `0 < 0`, the monomials of the f being
    anything, cannot hold together -> condition that excludes these combinations"""
    fs = []
    for a in sorted(atoms, key=lambda a: a.id):
        if a.op == "cltz":
            d = dict(a.attr)
            c = d.pop((), F(0))
            if d:
                fs.append((t.bvar(a), d, F(c)))
    r = 1
    n = len(fs)
    if n > 80:
        return r

    def exclude(co):
        """co: [(atom, coefficient)] with a constant sum"""
        q = 1
        for sg in (1, -1):
            c = sum(sg * k * x[2] for x, k in co)
            strict = any(sg * k > 0 for _, k in co)
            if c > 0 or c == 0 and strict:
                z = 1
                for x, k in co:
                    z = t.band(z, x[0] if sg * k > 0 else t.bnot(x[0]))
                q = t.band(q, t.bnot(z))
        return q

    def multiple(d, f):
        """k with d == k f"""
        if set(d) != set(f) or not d:
            return None
        m = next(iter(d))
        k = F(d[m]) / F(f[m])
        return k if all(F(d[x]) == k * F(f[x]) for x in d) else None

    for i in range(n):
        for j in range(i + 1, n):
            k = multiple(fs[i][1], fs[j][1])
            if k is not None:
                r = t.band(r, exclude([(fs[i], F(1)), (fs[j], -k)]))
                continue
            if len(fs[i][1]) > 4 or len(fs[j][1]) > 4:
                continue
            # fs[i] + x fs[j] loses a monomial
            for m in set(fs[i][1]) & set(fs[j][1]):
                x = -F(fs[i][1][m]) / F(fs[j][1][m])
                d = {z: F(fs[i][1].get(z, 0)) + x * F(fs[j][1].get(z, 0)) for z in set(fs[i][1]) | set(fs[j][1])}
                d = {z: v for z, v in d.items() if v}
                g = alg.sign(alg.sadd(d, {(): fs[i][2] + x * fs[j][2]} if fs[i][2] + x * fs[j][2] else {}))
                if g is not None and d:
                    # a sum of known sign
                    for sg in (1, -1):
                        if g == sg or g == ("+" if sg > 0 else "-") and (sg > 0 or sg * x > 0):
                            r = t.band(r, t.bnot(t.band(fs[i][0] if sg > 0 else t.bnot(fs[i][0]), fs[j][0] if sg * x > 0 else t.bnot(fs[j][0]))))
                for l in range(n):
                    if l not in (i, j):
                        k = multiple(d, fs[l][1])
                        if k is not None:
                            r = t.band(r, exclude([(fs[i], F(1)), (fs[j], x), (fs[l], -k)]))
            if not set(fs[i][1]) & set(fs[j][1]):
                # disjoint: the third one is in both
                for l in range(n):
                    f = fs[l][1]
                    if l not in (i, j) and set(f) == set(fs[i][1]) | set(fs[j][1]):
                        k1 = multiple({z: f[z] for z in fs[i][1]}, fs[i][1])
                        k2 = multiple({z: f[z] for z in fs[j][1]}, fs[j][1])
                        if k1 is not None and k2 is not None:
                            r = t.band(r, exclude([(fs[i], k1), (fs[j], k2), (fs[l], F(-1))]))
    return r


def noabs(x):
    """|v| < c as -c < v and v < c"""
    def sub(a):
        if a.op in ("lt", "le") and a.attr == "f":
            f = t.flt if a.op == "lt" else t.fle
            v, c = a.args
            if v.op == "abs":
                return t.band(t.tobdd(f(t.neg(c), v.args[0])), t.tobdd(f(v.args[0], c)))
            if c.op == "abs":
                return t.bor(t.tobdd(f(v, c.args[0])), t.tobdd(f(c.args[0], t.neg(v))))
        return None
    if not any(a.op in ("lt", "le") and any(y.op == "abs" for y in a.args) for a in t.bsupport(x)):
        return x
    return t.bsub(x, sub)


def implies(e, a, b, pc=1):
    return equivalent(e, t.bor(a, b), b, pc) is None
