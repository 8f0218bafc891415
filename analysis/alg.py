"""Algebraic normal form of value numbers.

scalar : {monomial: Fraction}, monomial = sorted tuple of (scalar atom, exponent)
vector : {vector atom: scalar}
matrix : {word: scalar}, word = tuple of matrix letters (identity = ())
Rotations are letters ("Q", quaternion atom, +-1) and form a free group.
Two expressions with the same normal form are equal over the reals for every input."""
from fractions import Fraction as F
import terms as t
from terms import mk

UNIT = set()       # vector atoms of length one
ORTHO = set()      # pairs of orthogonal vector atoms, in the order of their printed form
FINITE = [False]   # every atom is a finite number
POS = set()        # scalar atoms known to be positive
SQUARES = set()    # sums known to be squares of vectors, scaled
KIND = {}          # term id -> 's' | 'v' | 'm' | 'q'


def setkind(x, k):
    st = [x]
    while st:
        x = st.pop()
        if x.id in KIND:
            continue
        KIND[x.id] = k
        if x.op in ("ite", "neg", "add"):
            st.extend(x.args)


def typekind(types, tid):
    """'s' | 'v' | 'm' | 'q' for a type id (references stripped), else None"""
    ty = types[tid]
    n = 0
    while ty and ty["k"] in ("ref", "ptr") and n < 4:
        ty = types[ty["to"]]
        n += 1
    if not ty:
        return None
    if ty["k"] == "float":
        return "s"
    if ty["k"] == "adt":
        p = ty["path"]
        if p == "nalgebra::Matrix":
            r, c = types[ty["args"][1]]["path"][-2:], types[ty["args"][2]]["path"][-2:]
            if r == "U3" and c == "U1":
                return "v"
            if r == "U3" and c == "U3" or r == "U1" and c == "U3":
                return "m"
        if p in ("nalgebra::Point", "nalgebra::Translation"):
            return "v"
        if p == "nalgebra::Rotation":
            return "m"
        if p == "nalgebra::Quaternion":
            return "q"
        if p == "nalgebra::Unit":
            return typekind(types, ty["args"][0])
    return None


def kind(x):
    k = KIND.get(x.id)
    if k:
        return k
    op = x.op
    if op in ("f", "dot", "norm", "signum", "sqrt", "abs", "i2f", "fmin", "fmax"):
        return "s"
    if op == "agg":
        return {"vec3": "v", "quat": "q"}.get(x.attr, "?")
    if op in ("cross", "normalize", "qrot", "qaxis"):
        return "v"
    if op in ("minv", "transpose", "diag", "qmat"):
        return "m"
    if op == "zeros":
        return "m"
    if op in ("qmul", "qinv", "qid", "qfrom"):
        return "q"
    if op == "neg":
        return kind(x.args[0])
    if op in ("add", "ite"):
        for a in x.args:
            k = kind(a)
            if k != "?":
                return k
        return "?"
    if op == "mul":
        ks = [kind(a) for a in x.args]
        for k in ("v", "m", "q"):
            if k in ks:
                return k
        return "s" if "s" in ks else "?"
    if op == "div":
        return kind(x.args[0])
    if op == "mm":
        return kind(x.args[1])
    if op == "total":
        return kind(x.args[1])
    if op == "mu":
        import engine
        return "?"
    return "?"


class Z(tuple):
    """an interned normal form: compared by identity, printed by number (any fixed order will do)"""

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o if type(o) is Z else tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return self.r


INTERN = {}


def intern(x):
    if type(x) is Z:
        return x
    y = INTERN.get(x)
    if y is None:
        y = Z(x)
        y.h = hash(x)
        y.r = "#%d" % len(INTERN)
        INTERN[x] = y
    return y


# ---------------------------------------------------------------- scalars
ONE = {(): F(1)}
ZERO = {}


def sadd(a, b, k=F(1)):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, F(0)) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        e = d.get(x, 0) + e
        if e:
            d[x] = e
        else:
            d.pop(x, None)
    return intern(tuple(sorted(d.items(), key=repr))) if d else ()


class Budget(Exception):
    """the normal form would get too large"""


WORK = [0, None]


def limited(n, f, *a):
    """f(*a), giving up after n products of sums"""
    old = WORK[:]
    WORK[0], WORK[1] = 0, n
    try:
        return f(*a)
    finally:
        WORK[:] = old


def smul(a, b):
    r = {}
    WORK[0] += len(a) * len(b)
    if WORK[1] is not None and WORK[0] > WORK[1]:
        raise Budget("normal form too large")
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, c in reduce_mono(mono_mul(m1, m2)).items():
                c = r.get(m, F(0)) + c * c1 * c2
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
    return r


def reduce_mono(m):
    """norm(v)^2 -> v.v ; sqrt(p)^2 -> p ; sum atoms (p)^k with k>0 expand"""
    for i, (x, e) in enumerate(m):
        if x[0] == "norm" and e >= 2:
            rest = m[:i] + (((x, e - 2),) if e > 2 else ()) + m[i + 1:]
            return smul({rest: F(1)}, vdot(vthaw(x[1]), vthaw(x[1])))
        if x[0] == "sqrt" and e >= 2:
            rest = m[:i] + (((x, e - 2),) if e > 2 else ()) + m[i + 1:]
            return smul({rest: F(1)}, thaw(x[1]))
        if x[0] == "poly" and e > 0:
            rest = m[:i] + (((x, e - 1),) if e > 1 else ()) + m[i + 1:]
            return smul({rest: F(1)}, thaw(x[1]))
    return {m: F(1)}


def sscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def freeze(a):
    return intern(tuple(sorted(((intern(m) if m else (), c) for m, c in a.items()), key=repr)))


def thaw(f):
    return dict(f)


def atom(x, e=1):
    return {intern(((x, e),)): F(1)}


def sinv(a):
    if not a:
        return atom(("div0",))
    if len(a) == 1:
        (m, c), = a.items()
        return {intern(tuple((x, -e) for x, e in m)): 1 / c}
    # factor out leading coefficient and common monomial
    ms = sorted(a, key=repr)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {x: min(e, d.get(x, 0)) for x, e in common.items()}
            for x, e in d.items():
                if x not in common and e < 0:
                    common[x] = e
    common = {x: e for x, e in common.items() if e}
    # also negative exponents present in later monomials only
    cm = tuple(sorted(((x, -e) for x, e in common.items()), key=repr))
    b = {}
    for m, c in a.items():
        b[mono_mul(m, cm)] = c
    lead = b[sorted(b, key=repr)[0]]
    b = {m: c / lead for m, c in b.items()}
    if SQUARES and scaled(a)[0] in SQUARES and all(nonneg(x, e) for x, e in cm):
        SQUARES.add(("poly", freeze(b)) if lead > 0 else ("poly-", freeze(b)))
    inv = {((("poly", freeze(b)), -1),): 1 / lead}
    return smul(inv, {cm: F(1)})


def common(ms):
    """the largest monomial that divides all of these"""
    r = None
    for m in ms:
        d = dict(m)
        if r is None:
            r = d
            continue
        for x in set(r) | set(d):
            r[x] = min(r.get(x, 0), d.get(x, 0))
    return tuple(sorted(((x, e) for x, e in (r or {}).items() if e), key=repr))


def content(v):
    return common(m for c in v.values() for m in c)


def absmono(m):
    r = ONE
    for x, e in m:
        if x in POS or x[0] in ("norm", "sqrt", "abs") or e % 2 == 0:
            r = smul(r, atom(x, e))
        else:
            r = smul(r, atom(("abs", freeze(atom(x))), e))
    return r


def nonneg(x, e):
    return e % 2 == 0 or x in POS or x[0] == "poly" and x in SQUARES or x[0] in ("norm", "sqrt", "abs") or x[0] == "dot" and x[1] == x[2]


def sign(d):
    """1, -1, 0 when the sum is surely positive, negative, zero; "+" / "-" when surely not negative / not positive; else None"""
    if not d:
        return 0
    if SQUARES and len(d) > 1:
        if scaled(d)[0] in SQUARES:
            return "+"
        if scaled(sscale(d, F(-1)))[0] in SQUARES:
            return "-"
    big = (("const", "inf"), 1)
    inf = [c for m, c in d.items() if any(x == big[0] for x, e in m)]
    if inf:
        c = d.get((big,))
        return None if not FINITE[0] or c is None or len(inf) > 1 else 1 if c > 0 else -1
    ss = set()
    strict = False
    for m, c in d.items():
        if not all(nonneg(x, e) for x, e in m):
            return None
        ss.add(c > 0)
        strict = strict or all(x in POS for x, e in m)
    if len(ss) != 1:
        return None
    s = ss.pop()
    return (1 if s else -1) if strict else "+" if s else "-"


# ---------------------------------------------------------------- vectors
def vadd(a, b, k=F(1)):
    r = dict(a)
    for x, c in b.items():
        c = sadd(r.get(x, {}), sscale(c, k))
        if c:
            r[x] = c
        else:
            r.pop(x, None)
    return r


def vscale(a, s):
    r = {}
    for x, c in a.items():
        c = smul(c, s)
        if c:
            r[x] = c
    return r


def vfreeze(a):
    return intern(tuple(sorted(((x, freeze(c)) for x, c in a.items()), key=repr)))


def vthaw(f):
    return {x: thaw(c) for x, c in f}


def isbasis(x):
    return x[0] == "e"


def vdot(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            r = sadd(r, smul(smul(c, d), adot(x, y)))
    if FINITE[0] and len(r) > 1 and (a is b or a == b):
        SQUARES.add(scaled(r)[0])
    return r


def scaled(p):
    """frozen p with leading coefficient 1 or -1, the factor"""
    k = abs(freeze(p)[0][1])
    return freeze(sscale(p, F(1) / k)), k


def adot(x, y):
    if isbasis(x) and isbasis(y):
        return ONE if x == y else {}
    if isbasis(x):
        x, y = y, x
    if isbasis(y):
        return atom(("comp", x, y[1]))
    # rotations preserve the dot product
    if x[0] == "mv" and y[0] == "mv" and x[1] and x[1][0][0] == "Q" and x[1][0] == y[1][0]:
        return adot(mv(x[1][1:], x[2]), mv(y[1][1:], y[2]))
    # triple products
    for p, q in ((x, y), (y, x)):
        if p[0] == "cross" and q[0] != "cross":
            if q in (p[1], p[2]):
                return {}
            l = [p[1], p[2], q]
            s = 1
            # sort with sign
            for i in range(3):
                for j in range(2 - i):
                    if repr(l[j]) > repr(l[j + 1]):
                        l[j], l[j + 1] = l[j + 1], l[j]
                        s = -s
            return sscale(atom(("triple",) + tuple(l)), F(s))
    if x[0] == "cross" and y[0] == "cross":
        # (a x b).(c x d) = (a.c)(b.d)-(a.d)(b.c)
        return sadd(smul(adot(x[1], y[1]), adot(x[2], y[2])), smul(adot(x[1], y[2]), adot(x[2], y[1])), F(-1))
    if x == y and x in UNIT:
        return ONE
    if repr(y) < repr(x):
        x, y = y, x
    if (x, y) in ORTHO:
        return {}
    return atom(("dot", x, y))


def vcross(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            r = vadd(r, vscale(across(x, y), smul(c, d)))
    return r


def across(x, y):
    if x == y:
        return {}
    if isbasis(x) and isbasis(y):
        i, j = x[1], y[1]
        k = 3 - i - j
        return {("e", k): {(): F(1 if (i, j) in ((0, 1), (1, 2), (2, 0)) else -1)}}
    if repr(x) < repr(y):
        return {("cross", x, y): ONE}
    return {("cross", y, x): {(): F(-1)}}


def mv(word, x):
    if not word:
        return x
    if x[0] == "mv":
        w = reduce_word(word + x[1])
        return ("mv", w, x[2]) if w else x[2]
    return ("mv", word, x)


def reduce_word(w):
    out = []
    for l in w:
        if out and out[-1][0] == "Q" and l[0] == "Q" and out[-1][1] == l[1] and out[-1][2] == -l[2]:
            out.pop()
        else:
            out.append(l)
    return tuple(out)


def madd(a, b, k=F(1)):
    return vadd(a, b, k)


def mmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            w = reduce_word(x + y)
            e = sadd(r.get(w, {}), smul(c, d))
            if e:
                r[w] = e
            else:
                r.pop(w, None)
    return r


def mvec(a, v):
    r = {}
    for w, c in a.items():
        for x, d in v.items():
            k, w2, x2 = smul(c, d), w, x
            # rows and columns: (b a^T) x = b (a.x)
            while True:
                j = next((i for i in range(len(w2) - 1, 0, -1) if w2[i][0] == "T" and w2[i][1][0] == "V" and w2[i - 1][0] == "V"), None)
                if j is None:
                    break
                k = smul(k, adot(w2[j][1][1], mv(w2[j + 1:], x2)))
                x2, w2 = w2[j - 1][1], w2[:j - 1]
            r = vadd(r, {mv(w2, x2): k})
    return r


def mtrans(a):
    r = {}
    for w, c in a.items():
        o = []
        for l in reversed(w):
            if l[0] == "Q":
                o.append(("Q", l[1], -l[2]))
            elif l[0] == "T":
                o.append(l[1])
            else:
                o.append(("T", l))
        r[tuple(o)] = c
    return r


def orthogonal(x, y):
    ORTHO.add((x, y) if repr(x) < repr(y) else (y, x))


class Alg:
    def __init__(self, eng=None, subst=None, pc=1, base=None, coarse=False):
        self.e = eng
        self.coarse = coarse      # lengths, products of vectors, divisors and conditions are taken as they stand
        self.subst = subst or {}
        # operands of conditions are normalised without assumptions, so that a condition has one form
        self.base = base or (self if pc == 1 else Alg(eng, subst, coarse=coarse))
        self.cmemo = {} if self.base is self else self.base.cmemo
        self.pc = self.canon(pc)
        self.open = None          # first condition met that pc leaves undecided
        self.ms, self.mvv, self.mmm, self.mq = {}, {}, {}, {}

    def kind(self, x, n=0):
        k = kind(x)
        if k == "?" and x.op == "mu" and self.e and n < 5:
            for y in ("init", "next"):
                z = self.e.mu[x].get(y)
                if z is not None and z is not x:
                    k = self.kind(z, n + 1)
                    if k != "?":
                        return k
        if k == "?" and x.op == "ite":
            for a in x.args:
                k = self.kind(a, n + 1)
                if k != "?":
                    return k
        return k

    # conditions are compared up to the algebra of their operands (real arithmetic)
    def canon(self, b):
        if self.coarse:
            return b
        return t.bsub(b, self.catom, self.cmemo) if b > 1 else b

    def catom(self, x):
        if x.op in ("lt", "le", "feq", "batom") and x.attr != "i" and any(a.op == "ite" for a in x.args):
            # a condition on a value that differs between cases is decided in each case
            ls = [t.leaves(a) for a in x.args]
            if len(ls[0]) * (len(ls[1]) if len(ls) > 1 else 1) <= 64 and len(ls) <= 2:
                r = 0
                for c, a in ls[0]:
                    for d, b in ls[1] if len(ls) > 1 else [(1, None)]:
                        cd = t.band(c, d)
                        if cd:
                            if self.kind(a) == "?" and kind(x.args[0]) != "?":
                                setkind(a, kind(x.args[0]))
                            y = t.mk(x.op, (a,) if b is None else (a, b), x.attr)
                            r = t.bor(r, t.band(self.base.canon(cd), self.base.canon(t.bvar(y))))
                return r
        if x.op in ("lt", "le") and x.attr == "f" and [a.op for a in x.args].count("abs") == 1:
            # |v| < c  ==  -c < v and v < c
            f = t.flt if x.op == "lt" else t.fle
            v, c = x.args
            if v.op == "abs":
                return self.base.canon(t.band(t.tobdd(f(t.neg(c), v.args[0])), t.tobdd(f(v.args[0], c))))
            return self.base.canon(t.bor(t.tobdd(f(v, c.args[0])), t.tobdd(f(c.args[0], t.neg(v)))))
        if x.op in ("lt", "le") and x.attr == "f" or x.op == "feq" or x.op == "batom" and x.args:
            r = self.split(x, 1, [0])
            return self.catom1(x, self.base) if r is None else r
        return None

    def split(self, x, pc, n):
        """the condition x decided separately in each case its operands distinguish; None when there are too many"""
        a = Alg(self.e, self.subst, base=self.base)
        a.pc = pc
        r = self.catom1(x, a)
        if a.open is None:
            return r
        n[0] += 1
        if n[0] > 12:
            return None
        v = t.bvar(t.S.varterm[t.S.node[a.open][0]])
        r = 0
        for c in (v, t.bnot(v)):
            if t.band(pc, c):
                q = self.split(x, t.band(pc, c), n)
                if q is None:
                    return None
                r = t.bor(r, t.band(c, q))
        return r

    def catom1(self, x, base):
        if x.op in ("lt", "le") and x.attr == "f":
            d = sadd(base.s(x.args[0]), base.s(x.args[1]), F(-1))
            neg = x.op == "le"
            if neg:
                d = sscale(d, F(-1))          # a <= b  ==  !(b < a)
            g = sign(d)
            if g is not None and g != "-":
                r = 1 if g == -1 else 0
            else:
                f = freeze(d)
                d = sscale(d, F(1) / abs(f[0][1]))
                r = t.bvar(t.mk("cltz", (), freeze(d)))
            return t.bnot(r) if neg else r
        if x.op == "feq":
            d = sadd(base.s(x.args[0]), base.s(x.args[1]), F(-1))
            if not d or set(d) == {()}:
                return 0 if d else 1
            d = sscale(d, F(1) / freeze(d)[0][1])
            return t.bvar(t.mk("ceqz", (), freeze(d)))
        k = base.kind(x.args[0])
        z = base.nf(x.args[0])
        return t.bvar(t.mk("cb", (), (x.attr, vfreeze(z) if k in ("v", "m") else z if k == "q" else freeze(z))))

    def s0(self, x):
        return self.base.s(x)

    def ite_atom(self, x, nf, fz):
        c = self.canon(x.attr)
        c2 = t.bcons(c, self.pc) if self.pc != 1 else c
        if c2 == 1:
            return nf(x.args[0]), None
        if c2 == 0:
            return nf(x.args[1]), None
        a, b = nf(x.args[0]), nf(x.args[1])
        if fz(a) == fz(b):
            return a, None
        if self.open is None:
            self.open = c2
        return None, ("ite", c2, fz(a), fz(b))

    def s(self, x):
        r = self.ms.get(x.id)
        if r is None:
            r = self._s(x)
            self.ms[x.id] = r
        return r

    def _s(self, x):
        if x.id in self.subst:
            return self.s(self.subst[x.id]) if isinstance(self.subst[x.id], t.T) else self.subst[x.id]
        op = x.op
        if op == "f":
            if x.attr in ("inf", "-inf", "nan"):
                if x.attr == "-inf":
                    return sscale(atom(("const", "inf")), F(-1))
                return atom(("const", x.attr))
            return sadd({}, {(): F(x.attr)}) if float(x.attr) else {}
        if op == "i":
            return {(): F(x.attr)} if x.attr else {}
        if op == "neg":
            return sscale(self.s(x.args[0]), F(-1))
        if op == "add":
            return sadd(self.s(x.args[0]), self.s(x.args[1]))
        if op == "mul":
            return smul(self.s(x.args[0]), self.s(x.args[1]))
        if op == "div":
            d = self.s(x.args[1])
            if self.coarse and len(d) > 1:
                d = atom(("t", x.args[1].id))
            return smul(self.s(x.args[0]), sinv(d))
        if self.coarse and op in ("dot", "norm", "sqrt", "abs"):
            return atom(("t", x.id))
        if op == "dot":
            return vdot(self.v(x.args[0]), self.v(x.args[1]))
        if op == "norm":
            if self.kind(x.args[0]) == "m":
                return atom(("mnorm", vfreeze(self.m(x.args[0]))))
            return self.norm(self.v(x.args[0]))
        if op == "abs":
            return self.absn(self.s(x.args[0]))
        if op == "sqrt":
            return self.sqrt(self.s(x.args[0]))
        if op == "i2f":
            return atom(("i2f", x.args[0].id))
        if op == "ite":
            a, k = self.ite_atom(x, self.s, freeze)
            if k is None:
                return a
            m = self.choice(k[1], thaw(k[2]), thaw(k[3]))
            return atom(k) if m is None else m
        if op in ("fmin", "fmax"):
            a, b = (self.s(y) for y in x.args)
            return self.smallest(a, b) if op == "fmin" else sscale(self.smallest(sscale(a, F(-1)), sscale(b, F(-1))), F(-1))
        if op == "fld" and self.kind(x.args[0]) in ("v",):
            return vdot(self.v(x.args[0]), {("e", x.attr): ONE})
        if op == "total":
            return self.total(x, "s")
        if op in ("signum", "fclamp") or op.startswith("f32:"):
            return atom((op,) + tuple(freeze(self.s(a)) for a in x.args))
        return atom(("t", x.id))

    def choice(self, c, a, b):
        """a when c else b, where c compares a with b: the smaller or the larger of the two"""
        v, lo, hi = t.S.node[c]
        if (lo, hi) not in ((0, 1), (1, 0)):
            return None
        x = t.S.varterm[v]
        if x.op != "cltz":
            return None
        pos = hi == 1
        d = sadd(a, b, F(-1))
        if not d:
            return a
        d = sscale(d, F(1) / abs(freeze(d)[0][1]))
        f = x.attr
        if freeze(d) == f:
            small = pos
        elif freeze(sscale(d, F(-1))) == f:
            small = not pos
        else:
            return None
        return self.smallest(a, b) if small else sscale(self.smallest(sscale(a, F(-1)), sscale(b, F(-1))), F(-1))

    def smallest(self, a, b):
        d = sadd(a, b, F(-1))
        if not d or set(d) == {()}:
            return a if not d or d[()] < 0 else b
        if not sadd(a, b):
            return sscale(self.absn(a), F(-1))
        c = t.bvar(mk("cltz", (), freeze(sscale(d, F(1) / abs(freeze(d)[0][1])))))
        c = t.bcons(c, self.pc) if self.pc != 1 else c
        if c < 2:
            return a if c == 1 else b
        l = sorted((freeze(a), freeze(b)), key=repr)
        lead = abs((l[0] or l[1])[0][1])
        l = tuple(sorted((freeze(sscale(thaw(f), F(1) / lead)) for f in l), key=repr))
        if self.open is None:
            self.open = c
        return sscale(atom(("min",) + l), lead)

    def absn(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            return sscale(absmono(m), abs(c))
        f = freeze(p)
        if SQUARES and scaled(p)[0] in SQUARES:
            return p
        if f[0][1] < 0:
            p = sscale(p, F(-1))
            f = freeze(p)
        return atom(("abs", f))

    def sqrt(self, p):
        if not p:
            return {}
        return atom(("sqrt", freeze(p)))

    def norm(self, v):
        if not v:
            return {}
        if len(v) == 1:
            (x, c), = v.items()
            if len(c) == 1 and () in c:
                return sscale(ONE if x in UNIT else atom(("norm", vfreeze({x: ONE}))), abs(c[()]))
            return smul(self.absn(c), ONE if x in UNIT else atom(("norm", vfreeze({x: ONE}))))
        cm = content(v)
        if cm:
            v = vscale(v, {tuple((x, -e) for x, e in cm): F(1)})
        f = vfreeze(v)
        if f[0][1][0][1] < 0:
            f = vfreeze(vscale(v, {(): F(-1)}))
        r = atom(("norm", f))
        return smul(r, absmono(cm)) if cm else r

    def v(self, x):
        r = self.mvv.get(x.id)
        if r is None:
            r = self._v(x)
            self.mvv[x.id] = r
        return r

    def _v(self, x):
        if x.id in self.subst:
            return self.v(self.subst[x.id]) if isinstance(self.subst[x.id], t.T) else self.subst[x.id]
        op = x.op
        if op == "agg" and x.attr == "vec3":
            r = {}
            for i, a in enumerate(x.args):
                r = vadd(r, {("e", i): self.s(a)})
            return {k: c for k, c in r.items() if c}
        if op == "zeros" or (op == "f" and float(x.attr) == 0):
            return {}
        if op == "neg":
            return vscale(self.v(x.args[0]), {(): F(-1)})
        if op == "add":
            return vadd(self.v(x.args[0]), self.v(x.args[1]))
        if op == "mul":
            a, b = x.args
            ka, kb = self.kind(a), self.kind(b)
            if ka == "v" or kb == "s":
                a, b = b, a
            return vscale(self.v(b), self.s(a))
        if op == "div":
            return vscale(self.v(x.args[0]), sinv(self.s(x.args[1])))
        if op == "cross":
            return vcross(self.v(x.args[0]), self.v(x.args[1]))
        if op == "normalize":
            v = self.v(x.args[0])
            return vscale(v, sinv(atom(("t", mk("norm", x.args).id)) if self.coarse else self.norm(v)))
        if op == "mm":
            return mvec(self.m(x.args[0]), self.v(x.args[1]))
        if op == "qrot":
            return mvec({self.q(x.args[0]): ONE}, self.v(x.args[1]))
        if op == "ite":
            a, k = self.ite_atom(x, self.v, vfreeze)
            return a if k is None else {k: ONE}
        if op == "qaxis":
            return {("qaxis", self.q(x.args[0])): ONE}
        if op == "total":
            return self.total(x, "v")
        return {("t", x.id): ONE}

    def total(self, x, k):
        """sum of the second argument over the members of a set (the first), linear in what varies with the member"""
        import loops
        S, d = x.args
        idx = mk("idx", (S,))
        if loops.occurs(d, lambda y: y.op == "ite" and loops.free(y, idx), stop=lambda y: loops.binds(y, idx)):
            return {"s": lambda: atom(("t", x.id)), "v": lambda: {("t", x.id): ONE}, "m": lambda: {(("t", x.id),): ONE}}[k]()
        ss = loops.SetSums(self, S)
        return {"s": lambda: ss.ssum(ss, self.s(d)), "v": lambda: ss.vsum(ss, self.v(d)), "m": lambda: ss.msum(ss, self.m(d))}[k]()

    def m(self, x):
        r = self.mmm.get(x.id)
        if r is None:
            r = self._m(x)
            self.mmm[x.id] = r
        return r

    def _m(self, x):
        if self.kind(x) == "v":
            # a column: one letter per vector atom
            return {(("V", a),): c for a, c in self.v(x).items()}
        if x.id in self.subst:
            return self.m(self.subst[x.id]) if isinstance(self.subst[x.id], t.T) else self.subst[x.id]
        op = x.op
        if op == "zeros":
            return {}
        if op == "neg":
            return vscale(self.m(x.args[0]), {(): F(-1)})
        if op == "add":
            return vadd(self.m(x.args[0]), self.m(x.args[1]))
        if op == "mul":
            a, b = x.args
            if self.kind(a) == "m":
                a, b = b, a
            return vscale(self.m(b), self.s(a))
        if op == "div":
            return vscale(self.m(x.args[0]), sinv(self.s(x.args[1])))
        if op == "mm":
            return mmul(self.m(x.args[0]), self.m(x.args[1]))
        if op == "transpose":
            return mtrans(self.m(x.args[0]))
        if op == "qmat":
            return {self.q(x.args[0]): ONE}
        if op == "diag":
            v = x.args[0]
            if v.op == "agg" and v.attr == "vec3" and v.args[0] is v.args[1] is v.args[2]:
                return {(): self.s(v.args[0])} if self.s(v.args[0]) else {}
            r = {}
            d = self.v(v)
            for i in range(3):
                c = vdot(d, {("e", i): ONE})
                if c:
                    r[(("V", ("e", i)), ("T", ("V", ("e", i))))] = c
            return r
        if op == "agg" and x.attr == "mat" and len(x.args) == 9:
            r = {}
            for i in range(9):
                c = self.s(x.args[i])
                if c:
                    r[(("V", ("e", i // 3)), ("T", ("V", ("e", i % 3))))] = c
            return r
        if op == "ite":
            a, k = self.ite_atom(x, self.m, vfreeze)
            return a if k is None else {(k,): ONE}
        if op == "minv":
            return self.minv(self.m(x.args[0]))
        if op == "total":
            return self.total(x, "m")
        return {(("t", x.id),): ONE}

    def minv(self, m):
        if len(m) == 1:
            (w, c), = m.items()
            o = []
            for l in reversed(w):
                if l[0] == "Q":
                    o.append(("Q", l[1], -l[2]))
                elif l[0] == "inv1":
                    o.append(l[1])
                else:
                    o.append(("inv1", l))
            return {tuple(o): sinv(c)}
        return {(("inv", vfreeze(m)),): ONE}

    def q(self, x):
        """word of rotation letters"""
        r = self.mq.get(x.id)
        if r is None:
            r = self._q(x)
            self.mq[x.id] = r
        return r

    def _q(self, x):
        if x.id in self.subst:
            return self.q(self.subst[x.id]) if isinstance(self.subst[x.id], t.T) else self.subst[x.id]
        op = x.op
        if op == "qid":
            return ()
        if op == "qmul":
            return reduce_word(self.q(x.args[0]) + self.q(x.args[1]))
        if op == "qinv":
            return tuple(("Q", l[1], -l[2]) for l in reversed(self.q(x.args[0])))
        if op == "qfrom":
            v = self.v(x.args[0])
            f = vfreeze(v)
            if not f:
                return ()
            # from_scaled_axis(-v) = inverse
            if f[0][1][0][1] < 0:
                return (("Q", ("from", vfreeze(vscale(v, {(): F(-1)}))), -1),)
            if len(f) == 1 and isinstance(f[0][0], tuple) and f[0][0][0] == "qaxis" and f[0][1] == freeze(ONE):
                return f[0][0][1]
            return (("Q", ("from", f), 1),)
        if op == "ite":
            a, b = self.q(x.args[0]), self.q(x.args[1])
            if a == b:
                return a
            c = self.canon(x.attr)
            c = t.bcons(c, self.pc) if self.pc != 1 else c
            if c < 2:
                return a if c == 1 else b
            if self.open is None:
                self.open = c
            return (("Q", ("ite", c, a, b), 1),)
        return (("Q", ("t", x.id), 1),)

    def nf(self, x):
        k = self.kind(x)
        return {"s": self.s, "v": self.v, "m": self.m, "q": self.q}.get(k, self.s)(x)

    def eq(self, a, b):
        if a is b:
            return True
        k = self.kind(a)
        if k == "?":
            k = self.kind(b)
        f = {"s": self.s, "v": self.v, "m": self.m, "q": self.q}.get(k)
        if f is None:
            return False
        return f(a) == f(b)


def case_eq(eng, x, y, pc=1, subst=None, limit=512, setup=None, coarse=False):
    """equal in every case: where the normal forms depend on a condition that pc leaves open, both sides
    of that condition are compared.  Returns None if equal, else (canonical case, nf x, nf y)"""
    todo = [pc]
    seen = 0
    base = Alg(eng, subst, coarse=coarse)
    first = True
    while todo:
        p = todo.pop()
        a = Alg(eng, subst, base=base, coarse=coarse)
        a.pc = base.canon(p) if first else p
        first = False
        if a.pc == 0:
            continue
        if setup:
            setup(a)
        seen += 1
        if seen > limit:
            raise RuntimeError("too many cases")
        k = a.kind(x)
        if k == "?":
            k = a.kind(y)
        f = {"s": a.s, "v": a.v, "m": a.m, "q": a.q}.get(k, a.s)
        u, v = f(x), f(y)
        if u == v:
            continue
        if a.open is None:
            if k == "s" and FINITE[0] and tied(sadd(u, v, F(-1)), a.pc):
                continue
            return a.pc, u, v
        at = t.S.varterm[t.S.node[a.open][0]]
        c = t.bvar(at)
        todo.append(t.band(a.pc, c))
        todo.append(t.band(a.pc, t.bnot(c)))
    return None


def tied(d, pc):
    """pc says of this number (not NaN) that it is neither negative nor positive"""
    if not d or sign(d) is not None:
        return False
    d = sscale(d, F(1) / abs(freeze(d)[0][1]))
    return all(t.band(pc, t.bvar(mk("cltz", (), freeze(sscale(d, F(z)))))) == 0 for z in (1, -1))


# ---------------------------------------------------------------- printing
def sh(x):
    if isinstance(x, dict):
        return " + ".join("%s%s" % (sh(c) if not isinstance(c, F) else ("" if c == 1 else str(c) + "*"), "·" + sh(m) if isinstance(c, dict) else sh(m)) for m, c in x.items()) or "0"
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "t":
        return t.show(t.S.all[x[1]], 4)
    if isinstance(x, tuple):
        return "(" + " ".join(sh(y) for y in x) + ")"
    return str(x)
