"""Hash-consed value numbers (terms), a small BDD package for conditions, and the
canonicalising constructors used by the abstract interpreter (engine.py).

A term denotes "the value computed by this expression of the source"; two program
points with the same term compute the same value.  Nothing is ever evaluated."""
import math
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("id", "op", "args", "attr", "_s")

    def __repr__(self):
        return show(self)


class Store:
    """Interning tables (one per analysis run)."""

    def __init__(self):
        self.tab = {}
        self.all = []
        # BDD
        self.node = [None, None]          # id -> (var, lo, hi)
        self.utab = {}
        self.itec = {}
        self.conc = {}
        self.varterm = []                 # var -> T
        self.termvar = {}                 # T.id -> var

    def mk(self, op, args=(), attr=None):
        k = (op, tuple(a.id for a in args), attr)
        t = self.tab.get(k)
        if t is None:
            t = T()
            t.id = len(self.all)
            t.op = op
            t.args = tuple(args)
            t.attr = attr
            t._s = None
            self.tab[k] = t
            self.all.append(t)
        return t


S = Store()


def reset():
    global S
    S.__init__()
    import alg
    alg.KIND.clear()
    _reset_consts()


def mk(op, args=(), attr=None):
    return S.mk(op, args, attr)


# ---------------------------------------------------------------- BDD
def bnode(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = S.utab.get(k)
    if n is None:
        n = len(S.node)
        S.node.append(k)
        S.utab[k] = n
    return n


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = S.itec.get(k)
    if r is not None:
        return r
    N = S.node
    v = N[f][0]
    if g > 1 and N[g][0] < v:
        v = N[g][0]
    if h > 1 and N[h][0] < v:
        v = N[h][0]
    f0, f1 = (N[f][1], N[f][2]) if N[f][0] == v else (f, f)
    g0, g1 = (N[g][1], N[g][2]) if g > 1 and N[g][0] == v else (g, g)
    h0, h1 = (N[h][1], N[h][2]) if h > 1 and N[h][0] == v else (h, h)
    r = bnode(v, bite(f0, g0, h0), bite(f1, g1, h1))
    S.itec[k] = r
    return r


def band(a, b):
    return bite(a, b, 0)


def bor(a, b):
    return bite(a, 1, b)


def bnot(a):
    return bite(a, 0, 1)


def bimp(a, b):
    """a => b is a tautology"""
    return band(a, bnot(b)) == 0


def bcons(f, c):
    """Coudert-Madre constrain: f restricted to care set c."""
    if c == 1 or f < 2:
        return f
    if c == 0:
        return f
    if f == c:
        return 1
    k = (f, c)
    r = S.conc.get(k)
    if r is not None:
        return r
    N = S.node
    v = min(N[f][0], N[c][0])
    f0, f1 = (N[f][1], N[f][2]) if N[f][0] == v else (f, f)
    c0, c1 = (N[c][1], N[c][2]) if N[c][0] == v else (c, c)
    if c0 == 0:
        r = bcons(f1, c1)
    elif c1 == 0:
        r = bcons(f0, c0)
    else:
        if N[f][0] != v:
            # variable only in the care set: avoid introducing it
            r = bcons(f, bor(c0, c1))
        else:
            r = bnode(v, bcons(f0, c0), bcons(f1, c1))
    S.conc[k] = r
    return r


def bvar(t):
    """BDD of a boolean atom term"""
    v = S.termvar.get(t.id)
    if v is None:
        v = len(S.varterm)
        S.varterm.append(t)
        S.termvar[t.id] = v
    return bnode(v, 0, 1)


def bsupport(f, acc=None):
    """set of atom terms f depends on"""
    seen = set()
    out = set()
    st = [f]
    while st:
        n = st.pop()
        if n < 2 or n in seen:
            continue
        seen.add(n)
        v, lo, hi = S.node[n]
        out.add(S.varterm[v])
        st.append(lo)
        st.append(hi)
    return out


def beval(f, fn):
    """evaluate with fn(atom)->bool"""
    while f > 1:
        v, lo, hi = S.node[f]
        f = hi if fn(S.varterm[v]) else lo
    return f == 1


def bcof(f, atom, val):
    """cofactor: f with atom set to val"""
    memo = {}

    def go(n):
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = S.node[n]
            if S.varterm[v] is atom:
                r = go(hi) if val else go(lo)
            else:
                r = bite(bnode(v, 0, 1), go(hi), go(lo))
            memo[n] = r
        return r
    return go(f)


def bsub(f, fn, memo=None):
    """substitute atoms: fn(atom)-> bdd or None (keep)"""
    memo = {} if memo is None else memo

    def go(n):
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = S.node[n]
            t = S.varterm[v]
            s = fn(t)
            if s is None:
                s = bvar(t)
            r = bite(s, go(hi), go(lo))
            memo[n] = r
        return r
    return go(f)


def bpaths(f, limit=64):
    """list of satisfying partial assignments [(atom,bool),...] (for reports)"""
    out = []

    def go(n, acc):
        if len(out) >= limit:
            return
        if n == 0:
            return
        if n == 1:
            out.append(list(acc))
            return
        v, lo, hi = S.node[n]
        acc.append((S.varterm[v], False))
        go(lo, acc)
        acc[-1] = (S.varterm[v], True)
        go(hi, acc)
        acc.pop()
    go(f, [])
    return out


# ---------------------------------------------------------------- constants
def _reset_consts():
    global TRUE, FALSE, UNIT, UNINIT
    TRUE = mk("b", (), True)
    FALSE = mk("b", (), False)
    UNIT = mk("agg", (), "()")
    UNINIT = mk("uninit")


_reset_consts()


def cint(n):
    return mk("i", (), int(n))


def cflt(s):
    f = float(s)
    r = repr(f)
    if r == "-0.0":
        r = "0.0"
    return mk("f", (), r)


def sym(name):
    return mk("sym", (), name)


def tobdd(t):
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    if t.op == "cond":
        return t.attr
    if t.op == "ite":
        return bite(t.attr, tobdd(t.args[0]), tobdd(t.args[1]))
    if t.op == "i":
        return 1 if t.attr else 0
    return bvar(t)


def frombdd(n):
    if n == 1:
        return TRUE
    if n == 0:
        return FALSE
    v, lo, hi = S.node[n]
    if lo == 0 and hi == 1:
        return S.varterm[v]
    return mk("cond", (), n)


# ---------------------------------------------------------------- aggregates
def agg(tag, args):
    """tag: a string ("tuple", "closure:..", type path, with '#k' suffix for variant k)"""
    args = tuple(args)
    # eta: agg(fld(x,0),...,fld(x,n-1)) -> x  (same projection base)
    if args and args[0].op == "fld" and args[0].attr == 0 and tag != "tuple":
        b = args[0].args[0]
        if all(a.op == "fld" and a.attr == i and a.args[0] is b for i, a in enumerate(args)):
            if "#" not in tag and b.op != "as":
                return b
    if args and args[0].op == "sel" and tag != "tuple" and args[0].attr and args[0].attr[-1][0] == "f":
        a0 = args[0]
        pre = a0.attr[:-1]
        n = a0.attr[-1][2]
        if n == len(args) and all(a.op == "sel" and a.args == a0.args and a.attr[:-1] == pre and a.attr[-1][:2] == ("f", i) for i, a in enumerate(args)):
            if "#" not in tag:
                return mk("sel", a0.args, pre)
    return mk("agg", args, tag)


def base_tag(tag):
    return tag.split("#")[0]


def variant_of(t):
    if t.op == "agg" and "#" in t.attr:
        return int(t.attr.rsplit("#", 1)[1])
    return None


NONE_TAGS = {}


def ite(c, a, b):
    """value if-then-else on BDD condition c"""
    if c == 1:
        return a
    if c == 0:
        return b
    if a is b:
        return a
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    # prune nested ites under c
    if a.op == "ite":
        a = simp(a, c)
    if b.op == "ite":
        b = simp(b, bnot(c))
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return frombdd(bite(c, tobdd(a), tobdd(b)))
    # taking out what is not there, putting in what is there already
    for x, y, cc in ((a, b, c), (b, a, bnot(c))):
        if x.op == "srem" and x.args[0] is y and bimp(bnot(cc), bnot(bvar(mk("contains", (y, x.args[1]))))):
            return x
        if x.op == "sins" and x.args[0] is y and bimp(bnot(cc), bvar(mk("contains", (y, x.args[1])))):
            return x
    if a.op == "agg" and b.op == "agg" and a.attr == b.attr and len(a.args) == len(b.args):
        return agg(a.attr, [ite(c, x, y) for x, y in zip(a.args, b.args)])
    # ite(is_some(x), Some(payload of x), None) is x
    if a.op == "agg" and b.op == "agg" and "#" in a.attr and "#" in b.attr:
        r = _regroup(c, a, b)
        if r is not None:
            return r
    # push agg-vs-opaque: keep
    if a.op == "ite" and a.args[1] is b:
        return ite(band(c, a.attr), a.args[0], b)
    if a.op == "ite" and a.args[0] is b:
        return ite(band(c, bnot(a.attr)), a.args[1], b)
    if b.op == "ite" and b.args[0] is a:
        return ite(bor(c, b.attr), a, b.args[1])
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, bnot(b.attr)), a, b.args[0])
    # canonical polarity: topmost variable positive preferred -> compare ids
    n = bnot(c)
    if n < c:
        return mk("ite", (b, a), n)
    return mk("ite", (a, b), c)


def _payload_of(a):
    k = variant_of(a)
    if len(a.args) != 1:
        return None
    p = a.args[0]
    if p.op == "fld" and p.attr == 0 and p.args[0].op == "as" and p.args[0].attr == k:
        return p.args[0].args[0]
    if p.op == "sel" and len(p.attr) >= 2 and p.attr[-2][:2] == ("v", k) and p.attr[-1][:2] == ("f", 0):
        return mk("sel", p.args, p.attr[:-2])
    if p.op == "ite":
        return None
    return None


def _regroup(c, a, b):
    if base_tag(a.attr) != "std::option::Option":
        return None
    for x, y, cc in ((a, b, c), (b, a, bnot(c))):
        if variant_of(x) == 1 and variant_of(y) == 0:
            o = _payload_of(x)
            if o is not None and cc == bvar(mk("is", (o,), 1)):
                return o
    return None


def is_bool(t):
    return t.op in ("b", "cond", "lt", "le", "feq", "ieq", "eq", "is", "live", "contains", "more", "batom", "isdyn") or (t.op == "ite" and is_bool(t.args[0]) and is_bool(t.args[1]))


def simp(t, pc):
    """simplify a top-level ite under path condition pc"""
    while t.op == "ite" and pc != 1:
        c = bcons(t.attr, pc)
        if c == 1:
            t = t.args[0]
        elif c == 0:
            t = t.args[1]
        else:
            break
    return t


def leaves(t, pc=1):
    """[(cond, leaf)] of an ite tree"""
    out = []

    def go(t, c):
        if c == 0:
            return
        if t.op == "ite":
            go(t.args[0], band(c, t.attr))
            go(t.args[1], band(c, bnot(t.attr)))
        else:
            out.append((c, t))
    go(t, pc)
    return out


def mapite(t, fn):
    if t.op == "ite":
        return ite(t.attr, mapite(t.args[0], fn), mapite(t.args[1], fn))
    return fn(t)


# ---------------------------------------------------------------- integers (linear normal form)
def lin(t):
    """-> (const, {term: coef})"""
    if t.op == "i":
        return t.attr, {}
    if t.op == "lin":
        return t.attr[0], dict(zip(t.args, t.attr[1]))
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return cint(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    ks = sorted(d, key=lambda x: x.id)
    return mk("lin", ks, (c, tuple(d[k] for k in ks)))


def iadd(a, b, s=1):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(c1 + s * c2, d)


def imul(a, b):
    if a.op == "i" or b.op == "i":
        if b.op == "i":
            a, b = b, a
        c, d = lin(b)
        return mklin(c * a.attr, {k: v * a.attr for k, v in d.items()})
    if b.id < a.id:
        a, b = b, a
    return mk("imul", (a, b))


SIGNED = set()      # what may be below zero


def ilt(a, b):
    """a < b over ints (all atoms are >= 0, unless known to be signed)"""
    c, d = lin(iadd(b, a, -1))      # b - a > 0 ?
    if not d:
        return TRUE if c > 0 else FALSE
    if not SIGNED.isdisjoint(d):
        return mk("lt", (cint(0), mklin(c, d)), "i")
    if all(v > 0 for v in d.values()) and c > 0:
        return TRUE
    if all(v < 0 for v in d.values()) and c <= 0:
        return FALSE
    return mk("lt", (cint(0), mklin(c, d)), "i")


def ieq(a, b):
    c, d = lin(iadd(a, b, -1))
    if not d:
        return TRUE if c == 0 else FALSE
    if not SIGNED.isdisjoint(d):
        pass
    elif all(v > 0 for v in d.values()) and c > 0 or all(v < 0 for v in d.values()) and c < 0:
        return FALSE
    # canonical sign
    f = min(d, key=lambda x: x.id)
    if d[f] < 0:
        c, d = -c, {k: -v for k, v in d.items()}
    return mk("ieq", (mklin(c, d),))


def iop(op, a, b):
    """other operations on integers"""
    if a.op == "i" and b.op == "i":
        x, y = int(a.attr), int(b.attr)
        if x >= 0 and y >= 0:
            f = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shr": lambda: x >> y if y < 64 else None, "Shl": lambda: x << y if y < 16 and x < 65536 else None,
                 "Rem": lambda: x % y if y else None, "Div": lambda: x // y if y else None}.get(op.replace("Unchecked", ""))
            r = f() if f else None
            if r is not None:
                return cint(r)
    return mk("iop:" + op, (a, b))


# ---------------------------------------------------------------- real/vector arithmetic (bit-exact canonicalisation only)
ZERO = ("0.0", "-0.0")


def isz(t):
    if t.op == "f":
        return t.attr in ZERO
    if t.op == "agg" and t.attr == "vec3":
        return all(isz(a) for a in t.args)
    return t.op == "zeros"


def neg(a):
    if a.op == "neg":
        return a.args[0]
    if a.op == "f":
        return cflt(-float(a.attr))
    if isz(a):
        return a
    if a.op == "agg" and a.attr == "vec3":
        return agg("vec3", [neg(x) for x in a.args])
    if a.op == "ite":
        return ite(a.attr, neg(a.args[0]), neg(a.args[1]))
    return mk("neg", (a,))


def isvec3(t):
    return t.op == "agg" and t.attr == "vec3"


def add(a, b):
    if isz(a):
        return b
    if isz(b):
        return a
    if isvec3(a) and isvec3(b):
        return agg("vec3", [add(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "neg" and b.op == "neg":
        return neg(add(a.args[0], b.args[0]))
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        # x - x: zero for finite x; kept as a marked zero
        return mk("add", tuple(sorted((a, b), key=lambda t: t.id)))
    if b.id < a.id:
        a, b = b, a
    return mk("add", (a, b))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    """commutative product (at least one operand scalar)"""
    for x, y in ((a, b), (b, a)):
        if x.op == "f":
            v = float(x.attr)
            if v == 1.0:
                return y
            if v == -1.0:
                return neg(y)
            if v < 0:
                return neg(mul(cflt(-v), y))
            if y.op == "f":
                return mk("mul", tuple(sorted((a, b), key=lambda t: t.id)))
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if isvec3(a) and not isvec3(b):
        return agg("vec3", [mul(x, b) for x in a.args])
    if isvec3(b) and not isvec3(a):
        return agg("vec3", [mul(a, x) for x in b.args])
    if b.id < a.id:
        a, b = b, a
    return mk("mul", (a, b))


def div(a, b):
    if a.op == "neg":
        return neg(div(a.args[0], b))
    if b.op == "neg":
        return neg(div(a, b.args[0]))
    if b.op == "f" and b.attr == "1.0":
        return a
    if isvec3(a):
        return agg("vec3", [div(x, b) for x in a.args])
    if a.op == "f" and b.op == "f" and float(b.attr) != 0.0:
        return mk("div", (a, b))
    return mk("div", (a, b))


def mm(a, b):
    """non-commutative product"""
    if a.op == "neg":
        return neg(mm(a.args[0], b))
    if b.op == "neg":
        return neg(mm(a, b.args[0]))
    return mk("mm", (a, b))


def dot(a, b):
    if a.op == "neg":
        return neg(dot(a.args[0], b))
    if b.op == "neg":
        return neg(dot(a, b.args[0]))
    if b.id < a.id:
        a, b = b, a
    return mk("dot", (a, b))


def cross(a, b):
    if a.op == "neg":
        return neg(cross(a.args[0], b))
    if b.op == "neg":
        return neg(cross(a, b.args[0]))
    if b.id < a.id:
        return neg(mk("cross", (b, a)))
    return mk("cross", (a, b))


def norm(a):
    if a.op == "neg":
        a = a.args[0]
    return mk("norm", (a,))


def normalize(a):
    if a.op == "neg":
        return neg(normalize(a.args[0]))
    return mk("normalize", (a,))


def fabs(a):
    if a.op == "neg":
        a = a.args[0]
    if a.op == "f":
        return cflt(abs(float(a.attr)))
    return mk("abs", (a,))


def isnan_c(a):
    return a.op == "f" and a.attr == "nan"


def flt(a, b):
    if isnan_c(a) or isnan_c(b):
        return FALSE
    if a.op == "f" and b.op == "f":
        return TRUE if float(a.attr) < float(b.attr) else FALSE
    if a is b:
        return FALSE
    if a.op == "neg" and b.op == "neg":
        a, b = b.args[0], a.args[0]
    return mk("lt", (a, b), "f")


def fle(a, b):
    if isnan_c(a) or isnan_c(b):
        return FALSE
    if a.op == "f" and b.op == "f":
        return TRUE if float(a.attr) <= float(b.attr) else FALSE
    if a.op == "neg" and b.op == "neg":
        a, b = b.args[0], a.args[0]
    return mk("le", (a, b), "f")


def fclass(y, tag):
    """isnan, isinf or isfin of a number"""
    if y.op == "f":
        f = float(y.attr)
        return TRUE if {"isfin": math.isfinite(f), "isinf": math.isinf(f), "isnan": math.isnan(f)}[tag] else FALSE
    if y.op == "neg":
        return fclass(y.args[0], tag)
    return mk("batom", (y,), tag)


def feq(a, b):
    if isnan_c(a) or isnan_c(b):
        return FALSE
    if a.op == "f" and b.op == "f":
        return TRUE if float(a.attr) == float(b.attr) else FALSE
    if a is b:
        return frombdd(bnot(tobdd(mapite(a, lambda y: fclass(y, "isnan")))))
    if b.id < a.id:
        a, b = b, a
    return mk("feq", (a, b))


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if t.op in ("b", "i", "f", "sym"):
        return str(t.attr)
    if d <= 0:
        return "…%d" % t.id
    if t.op == "cond":
        return "cond{" + showb(t.attr, d - 1) + "}"
    if t.op == "ite":
        return "ite(%s ? %s : %s)" % (showb(t.attr, d - 1), show(t.args[0], d - 1), show(t.args[1], d - 1))
    if t.op == "agg":
        return "%s{%s}" % (str(t.attr).split("::")[-1], ", ".join(show(a, d - 1) for a in t.args))
    if t.op == "lin":
        c, co = t.attr
        return "+".join(["%s%s" % ("" if k == 1 else str(k) + "*", show(a, d - 1)) for a, k in zip(t.args, co)] + ([str(c)] if c else []))
    if t.op == "ref":
        return "&" + showplace(t.attr[0], t.attr[1])
    a = ",".join(show(a, d - 1) for a in t.args)
    at = "" if t.attr is None else ":" + showattr(t.attr)
    return "%s%s(%s)" % (t.op, at, a)


def showattr(a):
    if isinstance(a, tuple):
        return "<" + ".".join(showproj(p) if isinstance(p, tuple) else str(p) for p in a) + ">"
    return str(a)


def showproj(p):
    return ".".join((show(x, 3) if isinstance(x, T) else str(x)) for x in p[:2])


def showplace(root, projs):
    return "%s%s" % ("/".join(show(x, 3) if isinstance(x, T) else str(x) for x in root), "".join("." + showproj(p) for p in projs))


def showb(n, d=6, limit=4):
    if n == 1:
        return "true"
    if n == 0:
        return "false"
    ps = bpaths(n, limit + 1)
    s = " | ".join("&".join(("" if v else "!") + show(t, d - 1) for t, v in p) for p in ps[:limit])
    return s + (" | …" if len(ps) > limit else "")
