"""Models of everything the crate calls but does not define: std containers, iterators,
cells, floats, and nalgebra.  A model is an abstract transfer function on value numbers.
Anything not listed becomes an uninterpreted pure function of the (deep) argument values,
with its `&mut` arguments havocked, and is recorded in Engine.unknown."""
import re
import alg
import terms as t
from terms import mk, agg, ite, cint, TRUE, FALSE, UNIT, UNINIT
from engine import Some, NONE, OPT, RES, St, mkref, merge, init_root

AL = ("f", 0, 2, "arena")
AM = ("f", 1, 2, "arena")
VL = ("f", 0, 2, "vec")
VM = ("f", 1, 2, "vec")
EMPTYMAP = lambda: mk("emptymap")
EMPTYSET = lambda: mk("emptyset")
NOLIVE = lambda: mk("nolive")
RANGE = "std::ops::Range"

SETS = ("std::collections::HashSet", "std::collections::BTreeSet", "std::collections::hash_set", "std::collections::btree_set")


def leftmost(a):
    """a product of matrices, multiplied from the left"""
    def parts(x):
        return parts(x.args[0]) + parts(x.args[1]) if x.op == "mm" else [x]
    ps = parts(a)
    r = ps[0]
    for x in ps[1:]:
        r = mk("mm", (r, x))
    return r


def some_cond(v):
    """BDD: option value is Some"""
    r = 0
    for c, l in t.leaves(v):
        if l is UNINIT:
            continue
        k = t.variant_of(l) if l.op == "agg" else None
        if k is None:
            x = t.bvar(mk("is", (l,), 1))
        else:
            x = 1 if k == 1 else 0
        r = t.bor(r, t.band(c, x))
    return r


def payload(eng, st, v):
    return eng.project(eng.project(v, ("v", 1), st), ("f", 0, 1, OPT + "#1"), st)


def option(c, v):
    return ite(c, Some(v), NONE)


# ---------------------------------------------------------------- sets
def live(eng, L, k, neq=True):
    if k.op == "ite":
        return t.bite(k.attr, live(eng, L, k.args[0]), live(eng, L, k.args[1]))
    while True:
        if L.op == "ite":
            return t.bite(L.attr, live(eng, L.args[0], k), live(eng, L.args[1], k))
        if L.op == "lins":
            return t.bor(eng.keyeq(L.args[1], k), live(eng, L.args[0], k))
        if L.op == "lrem":
            return t.band(t.bnot(eng.keyeq(L.args[1], k)), live(eng, L.args[0], k))
        break
    if L.op == "nolive":
        return 0
    if k.op == "newh" and L.op != "mu":
        return 0
    if k.op == "aitem" and k.args[0] is L:
        return 1
    return t.bvar(mk("live", (L, k)))


def contains(eng, S, k):
    if S is UNINIT:
        return 0
    if k.op == "ite":
        return t.bite(k.attr, contains(eng, S, k.args[0]), contains(eng, S, k.args[1]))
    if S.op == "ite":
        return t.bite(S.attr, contains(eng, S.args[0], k), contains(eng, S.args[1], k))
    if S.op == "sins":
        return t.bor(eng.keyeq(S.args[1], k), contains(eng, S.args[0], k))
    if S.op == "srem":
        return t.band(t.bnot(eng.keyeq(S.args[1], k)), contains(eng, S.args[0], k))
    if S.op == "emptyset":
        return 0
    if k.op == "sitem" and k.args[0] is S:
        return 1
    return t.bvar(mk("contains", (S, k)))


def sins(eng, S, k):
    if S.op == "sins" and S.args[1] is k:
        return S
    return mk("sins", (S, k))


def srem(eng, S, k):
    if S.op == "emptyset":
        return S
    if S.op == "sins" and S.args[1] is k:
        return srem(eng, S.args[0], k)
    if S.op == "srem" and S.args[1] is k:
        return S
    return mk("srem", (S, k))


# ---------------------------------------------------------------- dyn types
def dynorder(eng):
    o = getattr(eng, "_dynorder", None)
    if o is None:
        o = {}
        for f in eng.d.fns.values():
            for b in f["blocks"]:
                tm = b["t"]
                if tm["k"] == "call" and tm["f"]["k"] == "fn":
                    e = tm["f"]["fn"]
                    if e.get("impls"):
                        l = o.setdefault(e["trait"], [])
                        for i in e["impls"]:
                            p = eng.d.types[i["self"]].get("path")
                            if p and p not in l:
                                l.append(p)
        for l in o.values():
            l.sort()
        eng._dynorder = o
    return o


def dynbase(eng, x):
    """the object whose concrete type x has: writes to its fields do not change it"""
    while x.op == "sel":
        m, k = x.args
        if m.op == "store" and m.attr[:len(x.attr)] == x.attr and m.attr[len(x.attr):][:1] and m.attr[len(x.attr)][0] == "dyn":
            x = mk("sel", (m.args[0], k), x.attr)
        elif m.op == "ite":
            return ite(m.attr, dynbase(eng, eng.mksel(m.args[0], k, x.attr)), dynbase(eng, eng.mksel(m.args[1], k, x.attr)))
        elif m.op == "mu" and eng.mupaths.get(m) is not None and all(
                eng.prel(w, x.attr) == "dis" or w[:len(x.attr)] == x.attr and w[len(x.attr):][:1] and w[len(x.attr)][0] == "dyn" for w in eng.mupaths[m]):
            x = eng.mksel(eng.mu[m]["init"], k, x.attr)
        elif m.op == "store":
            y = eng.mksel(m, k, x.attr)
            if y is x:
                return x
            x = y
        else:
            return x
    return x


def dyncond(eng, x, T):
    if x is UNINIT:
        return 0
    x = dynbase(eng, x)
    if x.op == "ite":
        return t.bite(x.attr, dyncond(eng, x.args[0], T), dyncond(eng, x.args[1], T))
    if x.op == "agg":
        return 1 if t.base_tag(x.attr) == T else 0
    for tr, l in dynorder(eng).items():
        if T in l:
            k = l.index(T)
            r = 1
            for j in range(k):
                r = t.band(r, t.bnot(t.bvar(mk("isdyn", (x,), l[j]))))
            if k < len(l) - 1:
                r = t.band(r, t.bvar(mk("isdyn", (x,), T)))
            return r
    return t.bvar(mk("isdyn", (x,), T))


# ---------------------------------------------------------------- dispatch
def targ(eng, fn, i=0):
    return eng.d.types[fn["targs"][i]] if fn.get("targs") and i < len(fn["targs"]) else None


def deep(eng, st, x, n=0):
    x = t.simp(x, st.pc)
    if n > 6:
        return x
    if x.op == "ref":
        return deep(eng, st, eng.rref(st, x), n + 1)
    if x.op == "ite":
        return ite(x.attr, deep(eng, st, x.args[0], n + 1), deep(eng, st, x.args[1], n + 1))
    if x.op == "agg":
        if x.attr == "guard":
            return deep(eng, st, x.args[0], n + 1)
        return agg(x.attr, [deep(eng, st, a, n + 1) for a in x.args])
    return x


def ctxkey(eng, fkey):
    return fkey


CONSUMER = re.compile(r"^(std|core)::iter::Iterator::(fold|for_each|any|all|find|count|last|next)$|^std::iter::DoubleEndedIterator::next_back$")
ADAPT = re.compile(r"^(std|core)::iter::Iterator::(zip|skip|take|chain|cycle|rev|position|nth|find_map|try_fold|map_or|advance_by)$")
OVER = ("std::ops::RangeInclusive::<Idx>::new", "std::option::Option::<T>::iter", "std::option::Option::<T>::iter_mut", "<std::option::Option<T> as std::iter::IntoIterator>::into_iter",
        "<&'a std::option::Option<T> as std::iter::IntoIterator>::into_iter", "<&'a mut std::option::Option<T> as std::iter::IntoIterator>::into_iter")
CALLS = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")


def dispatch(eng, fr, st, fn, args, fkey, site, tm):
    path = fn["path"]
    res = fn.get("res") or path
    if path in eng.opaque or res in eng.opaque:
        return opaque_call(eng, fr, st, fn, args, fkey, site, tm)
    if path in eng.watch or res in eng.watch:
        eng.emit("call", st.pc, site, name=path if path in eng.watch else res, args=args, vals=[deep(eng, st, a) for a in args], fkey=fkey)
    if path in CALLS:
        tup = args[1]
        n = len(tup.args) if tup.op == "agg" else None
        if n is None:
            ty = argtypes(eng, fr, tm)
            n = len(ty[1]["args"]) if len(ty) > 1 and ty[1] and ty[1]["k"] == "tuple" else 0
        return eng.call_value(args[0], [eng.project(tup, ("f", i, n, "tuple"), st) for i in range(n)], st, fkey, site)
    if fn.get("virtual"):
        return virtual(eng, fr, st, fn, args, fkey, site, tm)
    if res in OVER:
        r = lookup(res)(C(eng, fr, st, fn, args, fkey, site, tm, res))
        if r is not None:
            return r if isinstance(r, tuple) else (st, r)
    if ADAPT.match(path) and args and native_iter(eng.val(st, args[0])):
        r = adapt(C(eng, fr, st, fn, args, fkey, site, tm, res), path.split("::")[-1])
        if r is not None:
            return r if isinstance(r, tuple) else (st, r)
    if fn.get("id") is not None and not (CONSUMER.match(path) and args and native_iter(eng.val(st, args[0]))):
        return eng.call_fn(fn["id"], args, st, fkey, site)
    h = lookup(res) or lookup(path)
    if h is not None:
        eng.stats["prims"] = eng.stats.get("prims", 0) + 1
        if "nalgebra" in res and tm is not None and fr is not None:
            for a, o in zip(args, tm["args"]):
                ty = eng.opty(fr, o)
                while eng.d.types[ty]["k"] == "ref" and eng.d.types[ty].get("to") is not None:
                    ty = eng.d.types[ty]["to"]
                k = eng.tkind(ty)
                if k:
                    alg.setkind(eng.val(st, a), k)
        r = h(C(eng, fr, st, fn, args, fkey, site, tm, res))
        if isinstance(r, tuple):
            return r
        return st, r
    return unknown_call(eng, fr, st, fn, args, fkey, site, tm)


class C:
    __slots__ = ("e", "fr", "st", "fn", "a", "fkey", "site", "tm", "res")

    def __init__(self, *x):
        self.e, self.fr, self.st, self.fn, self.a, self.fkey, self.site, self.tm, self.res = x

    def v(self, i):
        return self.e.val(self.st, self.a[i])

    def w(self, i, val, projs=()):
        self.e.wref(self.st, self.a[i], projs, val, self.site)

    def r(self, i, projs=()):
        return self.e.rref(self.st, self.a[i], projs)

    def deep(self, i):
        return deep(self.e, self.st, self.a[i])

    def panic(self, cond, why, ops=()):
        """record a possible panic and continue on the safe side; returns False if nothing continues"""
        bad = t.band(self.st.pc, cond)
        if bad:
            self.e.emit("panic", bad, self.site, why=why, ops=list(ops))
            self.st.pc = t.band(self.st.pc, t.bnot(cond))
        return self.st.pc != 0


def argtypes(eng, fr, tm):
    out = []
    if tm is None or fr is None:
        return out
    for o in tm["args"]:
        try:
            out.append(eng.d.types[eng.opty(fr, o)])
        except Exception:
            out.append(None)
    return out


def opaque_call(eng, fr, st, fn, args, fkey, site, tm):
    path = fn["path"]
    vals = [deep(eng, st, a) for a in args]
    key = None
    if path in eng.impure:
        key = fkey
    app = mk("app", vals, (path, key))
    eng.emit("call", st.pc, site, name=path, args=args, vals=vals, ret=app, fkey=fkey)
    tys = argtypes(eng, fr, tm)
    for i, ty in enumerate(tys):
        if ty and ty["k"] == "ref" and ty.get("mut"):
            eng.wref(st, args[i], (), mk("post", (app,), i), site)
    return st, app


def unknown_call(eng, fr, st, fn, args, fkey, site, tm):
    res = fn.get("res") or fn["path"]
    eng.unknown.setdefault(res, set()).add(site)
    vals = [deep(eng, st, a) for a in args]
    app = mk("app", vals, (res, None))
    if tm is not None:
        for i, ty in enumerate(argtypes(eng, fr, tm)):
            if ty and ty["k"] == "ref" and ty.get("mut"):
                eng.wref(st, args[i], (), mk("post", (app,), i), site)
        if tm.get("to") is None:
            eng.emit("panic", st.pc, site, why=res, ops=[])
            return None, None
    return st, app


def virtual(eng, fr, st, fn, args, fkey, site, tm):
    path = fn["path"]
    name = path.split("::")[-1]
    if fn["trait"].endswith("Downcast") or name in ("as_any", "as_any_mut"):
        return st, args[0]
    impls = fn.get("impls") or []
    if not impls or path in eng.open_virtual:
        return user_call(eng, fr, st, fn, args, fkey, site, tm)
    rv = eng.val(st, args[0])
    outs = []
    for i in sorted(impls, key=lambda i: eng.d.types[i["self"]]["path"]):
        T = eng.d.types[i["self"]]["path"]
        c = t.band(st.pc, dyncond(eng, rv, T))
        if c == 0:
            continue
        s = st.copy(c)
        a0 = eng.extref(t.simp(args[0], c), (("dyn", T),))
        s, r = eng.call_fn(i["fn"], [a0] + list(args[1:]), s, fkey + (T,), site)
        if s is not None:
            s.mem[("R",) + fkey] = r
            outs.append(s)
    m = merge(outs)
    if m is None:
        return None, None
    r = m.mem.pop(("R",) + fkey)
    return m, r


def user_call(eng, fr, st, fn, args, fkey, site, tm):
    """call of code the user supplies: result is an arbitrary value of the arguments and the
    callee's state, which it may change."""
    vals = [deep(eng, st, args[0])] + [a if a.op == "ref" else deep(eng, st, a) for a in args[1:]]
    app = mk("user", vals, (fn["path"],))
    eng.emit("usercall", st.pc, site, name=fn["path"], args=args, vals=vals, ret=app)
    tys = argtypes(eng, fr, tm)
    if tys and tys[0] and tys[0]["k"] == "ref" and tys[0].get("mut"):
        eng.wref(st, args[0], (), mk("post", (app,), 0), site)
    return st, app


# ---------------------------------------------------------------- table
EXACT = {}
RX = []


def prim(*names):
    def deco(f):
        for n in names:
            if n.startswith("~"):
                RX.append((re.compile(n[1:]), f))
            else:
                EXACT[n] = f
        return f
    return deco


_cache = {}


def lookup(p):
    if p in _cache:
        return _cache[p]
    h = EXACT.get(p)
    if h is None:
        for rx, f in RX:
            if rx.search(p):
                h = f
                break
    _cache[p] = h
    return h


# ---- panics
@prim("~^(core|std)::panicking::", "~^std::rt::begin_panic", "~unwrap_failed$", "~expect_failed$", "~slice_.*index.*fail")
def _panic(c):
    name = c.fn["path"]
    c.e.emit("panic", c.st.pc, c.site, why=name.split("::")[-1], ops=[])
    return None, None


# ---- formatting / printing: no value effect
@prim("~^core::fmt::", "~^std::fmt::", "~^std::io::", "~^std::hint::must_use", "~^alloc::fmt", "~ToString>?::to_string", "~^std::string::")
def _fmt(c):
    if c.fn["path"].endswith("must_use"):
        return c.a[0]
    ty = argtypes(c.e, c.fr, c.tm)
    return mk("const", (), "fmt")


# ---- cells and smart pointers
@prim("std::cell::RefCell::<T>::new", "std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new")
def _wrap(c):
    return c.a[0]


@prim("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut")
def _borrow(c):
    mut = c.res.endswith("_mut")
    c.e.emit("borrow", c.st.pc, c.site, ref=c.a[0], mut=mut)
    return agg("guard", [c.a[0]])


@prim("std::cell::RefCell::<T>::get_mut", "<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut", "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref",
      "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut",
      "<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow", "<std::boxed::Box<T, A> as std::borrow::BorrowMut<T>>::borrow_mut",
      "std::boxed::Box::<T>::into_inner", "std::boxed::Box::<T, A>::as_mut_ptr", "std::cell::RefCell::<T>::into_inner")
def _ident(c):
    return c.a[0]


@prim("~^<std::cell::Ref(Mut)?<'_, T> as std::ops::Deref(Mut)?>::deref", "~^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref")
def _gderef(c):
    g = c.v(0) if False else c.e.rref(c.st, c.a[0])

    def one(x):
        if x.op == "agg" and x.attr == "guard":
            return x.args[0]
        if x is UNINIT:
            return x
        return c.a[0]
    return t.mapite(t.simp(g, c.st.pc), one)


@prim("~nalgebra::Unit<T> as std::ops::Deref>::deref$", "~nalgebra::coordinates::<impl std::ops::Deref(Mut)? for", "~quaternion_coordinates::<impl std::ops::Deref(Mut)? for",
      "~std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref", "~Vec::<T, A>::as_(mut_)?slice", "~as std::(convert::AsRef|convert::AsMut|borrow::Borrow|borrow::BorrowMut)<.*>>::(as_ref|as_mut|borrow|borrow_mut)$",
      "~Unit::<T>::(into_inner|as_ref|new_unchecked|new_normalize_unchecked)$", "~Unit::<.*>::(quaternion|as_vector)$")
def _refident(c):
    return c.a[0]


@prim("std::boxed::Box::<T>::new_uninit")
def _newuninit(c):
    return mk("uninitbox")


@prim("std::boxed::box_assume_init_into_vec_unsafe", "~<impl \\[T\\]>::into_vec$")
def _intovec(c):
    return arr2vec(c.v(0))


def arr2vec(v):
    if v.op == "agg" and v.attr == "array":
        m = EMPTYMAP()
        for i, x in enumerate(v.args):
            m = mk("store", (m, cint(i), x), ())
        return agg("vec", [cint(len(v.args)), m])
    return v


@prim("~^std::cell::Ref(Mut)?::<'b, T>::map$")
def _refmap(c):
    g = c.e.rref(c.st, c.a[0]) if c.a[0].op == "ref" else c.a[0]
    if not (g.op == "agg" and g.attr == "guard"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    s, r = c.e.call_value(c.a[1], [g.args[0]], c.st, c.fkey + ("map",), c.site)
    return (None, None) if s is None else (s, agg("guard", [r]))


@prim("~^std::cell::Cell::<T>::(get|set|replace|take)$", "std::cell::Cell::<T>::new")
def _cell(c):
    n = c.res.split("::")[-1]
    if n == "new":
        return c.a[0]
    old = c.r(0)
    if n in ("set", "replace"):
        c.w(0, c.a[1])
    if n == "take":
        c.w(0, default_of(c.e, targ(c.e, c.fn, 0)))
    return UNIT if n == "set" else old


# ---- mem
@prim("std::mem::replace", "core::mem::replace", "std::cell::RefCell::<T>::replace")
def _replace(c):
    old = c.r(0)
    c.w(0, c.a[1])
    return old


@prim("std::mem::swap", "core::mem::swap")
def _swap(c):
    a, b = c.r(0), c.r(1)
    c.w(0, b)
    c.w(1, a)
    return UNIT


@prim("std::mem::drop", "core::mem::drop")
def _drop(c):
    return UNIT


@prim("std::mem::take", "core::mem::take", "core::option::Option::<T>::take")
def _take(c):
    old = c.r(0)
    ty = targ(c.e, c.fn, 0)
    c.w(0, default_of(c.e, ty))
    return old


def default_of(e, ty):
    if ty is None:
        return mk("default")
    s = ty.get("path", "") or ""
    if s.startswith("std::vec::Vec"):
        return agg("vec", [cint(0), EMPTYMAP()])
    if s.startswith(SETS):
        return EMPTYSET()
    if s == OPT:
        return NONE
    if ty["k"] == "float":
        return t.cflt("0.0")
    if ty["k"] == "bool":
        return FALSE
    if ty["k"] in ("int", "uint"):
        return cint(0)
    return mk("default", (), ty["s"])


# ---- floats
@prim("~^(core|std)::f32::<impl f32>::")
def _f32(c):
    n = c.res.split("::")[-1]
    x = c.v(0) if c.a else None
    if n == "abs":
        return t.mapite(x, t.fabs)
    if n in ("is_finite", "is_infinite", "is_nan"):
        tag = {"is_finite": "isfin", "is_infinite": "isinf", "is_nan": "isnan"}[n]
        return t.mapite(x, lambda y: t.fclass(y, tag))
    if n == "signum":
        return t.mapite(x, lambda y: t.neg(mk("signum", (y.args[0],))) if y.op == "neg" else mk("signum", (y,)))
    if n in ("min", "max"):
        a, b = c.v(0), c.v(1)
        if b.id < a.id:
            a, b = b, a
        return mk("fmin" if n == "min" else "fmax", (a, b))
    if n == "powi":
        k = c.v(1)
        if k.op == "i" and 0 < k.attr < 8:
            r = x
            for _ in range(k.attr - 1):
                r = t.mul(r, x)
            return r
    if n == "sqrt":
        return mk("sqrt", (x,))
    if n == "mul_add":
        return t.add(t.mul(c.v(0), c.v(1)), c.v(2))
    if n == "recip":
        return t.div(t.cflt("1.0"), x)
    if n == "clamp":
        return mk("fclamp", (c.v(0), c.v(1), c.v(2)))
    if n == "is_sign_negative":
        return mk("batom", (x,), "signneg")
    if n == "is_sign_positive":
        return t.frombdd(t.bnot(t.bvar(mk("batom", (x,), "signneg"))))
    return mk("f32:" + n, [c.v(i) for i in range(len(c.a))])


@prim("~^<&?(f32) as std::ops::(Add|Sub|Mul|Div|Neg)(<&?f32>)?>::", "~for f32>::(add|sub|mul|div|neg)$", "~for &'?a? ?f32>::(add|sub|mul|div|neg)$", "~<impl std::ops::(Add|Sub|Mul|Div|Neg).* for &?'?a? ?f32>")
def _fop(c):
    n = c.res.split("::")[-1]
    a = c.v(0)
    if "nalgebra" in c.res:
        return _arith(c)
    if n == "neg":
        return t.neg(a)
    b = c.v(1)
    return {"add": t.add, "sub": t.sub, "mul": t.mul, "div": t.div}[n](a, b)


@prim("~<impl std::ops::(Add|Sub|Mul|Div)Assign.* for f32>", "~^<f32 as std::ops::(Add|Sub|Mul|Div)Assign<&?f32>>::")
def _fassign(c):
    n = c.res.split("::")[-1]
    a, b = c.v(0), c.v(1)
    c.w(0, {"add_assign": t.add, "sub_assign": t.sub, "mul_assign": t.mul, "div_assign": t.div}[n](a, b))
    return UNIT


# ---- integers
@prim("~^<&?(usize|u8|u16|u32|u64|i8|i16|i32|i64|isize) as std::ops::(Add|Sub|Mul)(<&?[ui]\\w+>)?>::", "~^<(usize|u8|u16|u32|u64|i8|i16|i32|i64|isize) as std::ops::(Add|Sub|Mul)Assign<&?[ui]\\w+>>::")
def _iop(c):
    n = c.res.split("::")[-1]
    a, b = c.v(0), c.v(1)
    o = n.split("_")[0].capitalize()
    r = c.e.binop(None, o + "WithOverflow", a, b, inttid(c.e), c.st)
    v, ov = r.args
    if not c.panic(t.tobdd(ov), "overflow", [a, b]):
        return None, None
    if n.endswith("_assign"):
        c.w(0, v)
        return UNIT
    return v


def _iless(c, a, b):
    return t.tobdd(c.e.binop(None, "Lt", a, b, inttid(c.e), c.st))


@prim("~^std::intrinsics::integer_(min|max)$")
def _iminmax(c):
    a, b = c.v(0), c.v(1)
    l = _iless(c, b, a)
    return ite(l, b, a) if c.res.endswith("min") else ite(l, a, b)


@prim("std::cmp::min", "std::cmp::max", "~^std::cmp::Ord::(min|max)$", "~^<(usize|u8|u16|u32|u64|i8|i16|i32|i64|isize) as std::cmp::Ord>::(min|max)$", "~^std::cmp::impls::<impl std::cmp::Ord for (usize|u8|u16|u32|u64|i8|i16|i32|i64|isize)>::(min|max)$")
def _ominmax(c):
    ty = targ(c.e, c.fn, 0)
    if not ty or ty["k"] not in ("int", "uint"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    return _iminmax(c)


@prim("~^core::num::<impl (usize|u8|u16|u32|u64)>::(saturating_sub|checked_sub)$")
def _isat(c):
    a, b = c.v(0), c.v(1)
    l = _iless(c, a, b)
    d = c.e.binop(None, "Sub", a, b, inttid(c.e), c.st)
    if c.res.endswith("saturating_sub"):
        return ite(l, cint(0), d)
    return option(t.bnot(l), d)


# ---- nalgebra
def _scalar_mul(res):
    return "Mul<N> for" in res or "for f32>::mul" in res or "MulAssign<N> for" in res


@prim("~^nalgebra::base::ops::<impl std::ops::Index(Mut)?<usize> for nalgebra::Matrix")
def _vecindex(c):
    """component of a vector by number"""
    k = c.a[1]
    ty = (c.fn.get("targs") or [None])[0]
    if ty is None or alg.typekind(c.e.d.types, ty) != "v" or c.a[0].op != "ref":
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    if k.op == "i" and 0 <= int(k.attr) < 3:
        return c.e.extref(c.a[0], (("f", int(k.attr), 3, "vec3"),))
    if c.res.endswith("index_mut"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    x, y, z = (c.r(0, (("f", i, 3, "vec3"),)) for i in range(3))
    return mkref(("val", ite(t.tobdd(t.ieq(k, cint(0))), x, ite(t.tobdd(t.ieq(k, cint(1))), y, z))), ())


@prim("~^nalgebra::base::ops::<impl std::ops::")
def _arith(c):
    n = c.res.split("::")[-1]
    a = c.v(0)
    if n == "neg":
        return t.neg(a)
    b = c.v(1)
    if n == "add":
        return t.add(a, b)
    if n == "sub":
        return t.sub(a, b)
    if n == "mul":
        return t.mul(a, b) if _scalar_mul(c.res) else t.mm(a, b)
    if n == "div":
        return t.div(a, b)
    if n in ("add_assign", "sub_assign", "mul_assign", "div_assign"):
        o = n.split("_")[0]
        if o == "mul":
            v = t.mul(a, b) if _scalar_mul(c.res) else t.mm(a, b)
        else:
            v = {"add": t.add, "sub": t.sub, "div": t.div}[o](a, b)
        c.w(0, v)
        return UNIT
    return mk("nalg:" + n, (a, b))


@prim("~^nalgebra::geometry::rotation_ops::.*::mul$")
def _rotmul(c):
    return t.mm(c.v(0), c.v(1))


@prim("~^nalgebra::geometry::quaternion_ops::.*")
def _qmul(c):
    n = c.res.split("::")[-1]
    if n in ("mul", "mul_assign"):
        if "nalgebra::Matrix" in c.res or "Point" in c.res:
            return mk("qrot", (c.v(0), c.v(1)))
        v = mk("qmul", (c.v(0), c.v(1)))
        if n == "mul":
            return v
        c.w(0, v)
        return UNIT
    if n == "neg":
        return mk("qneg", (c.v(0),))
    if n in ("div", "div_assign"):
        v = mk("qmul", (c.v(0), qinv(c.v(1))))
        if n == "div":
            return v
        c.w(0, v)
        return UNIT
    if n.endswith("_assign"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    return mk("nalg:" + n, [c.v(i) for i in range(len(c.a))])


@prim("~^nalgebra::Unit::<.*>::(new_normalize|renormalize)$")
def _unorm(c):
    ty = targ(c.e, c.fn, 0)
    if ty and "Quaternion" in ty["s"]:
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    if c.res.endswith("renormalize"):
        c.w(0, t.normalize(c.v(0)))
        return UNIT
    return t.normalize(c.v(0))


@prim("~^nalgebra::geometry::quaternion_conversion::<impl std::convert::From<nalgebra::Unit<nalgebra::Quaternion<N>>> for nalgebra::Rotation<")
def _q2r(c):
    return mk("qmat", (c.v(0),))


@prim("~^nalgebra::geometry::point_ops::<impl std::ops::(Add|Sub)")
def _pointop(c):
    n = c.res.split("::")[-1]
    f = t.add if n.startswith("add") else t.sub
    v = f(c.v(0), c.v(1))
    if n.endswith("_assign"):
        c.w(0, v)
        return UNIT
    return v


@prim("~^nalgebra::base::conversion::<impl std::convert::From<\\[N; 3\\]>")
def _fromarr(c):
    v = c.v(0)
    if v.op == "agg" and v.attr == "array" and len(v.args) == 3:
        return agg("vec3", v.args)
    return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)


@prim("~^nalgebra::geometry::isometry_ops::<impl std::ops::Mul.*::mul$")
def _isomul(c):
    IR, IT = ("f", 0, 2, "iso"), ("f", 1, 2, "iso")
    p = c.e.project
    a, b = c.v(0), c.v(1)
    R, T = p(a, IR), p(a, IT)
    if "Point" in c.res:
        return t.add(qrot(R, b), T)
    if "Matrix<N, D" in c.res:
        return qrot(R, b)
    if "Mul<&'b nalgebra::Isometry" in c.res or "Mul for" in c.res or "Mul<nalgebra::Isometry" in c.res:
        return agg("iso", [mk("qmul", (R, p(b, IR))), t.add(qrot(R, p(b, IT)), T)])
    return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)


@prim("~^nalgebra::Matrix::<N, (R, C|D, D), S>::", "~^nalgebra::base::(blas|norm|interpolation|matrix|statistics|ops|componentwise|unit|edition|min_max)::<impl nalgebra::(Matrix|Unit)", "~^nalgebra::linalg::")
def _mat(c):
    n = c.res.split("::")[-1]
    a = c.v(0)
    one, zero = t.cflt("1.0"), t.cflt("0.0")
    isv = alg.kind(a) == "v"
    if isv and n == "fill":
        c.w(0, agg("vec3", [c.v(1)] * 3))
        return UNIT
    if n == "fill" and c.v(1) is zero and alg.kind(a) == "m":
        c.w(0, mk("zeros", (), "mat"))
        return UNIT
    if n == "copy_from":
        c.w(0, c.v(1))
        return UNIT
    if isv and n == "axpy":
        x = t.mul(c.v(2), c.v(1))
        k = c.v(3)
        c.w(0, x if k is zero else t.add(a if k is one else t.mul(a, k), x))
        return UNIT
    if isv and n == "metric_distance":
        return t.norm(t.sub(c.v(1), a))
    if isv and n == "try_normalize":
        return option(t.tobdd(t.flt(c.v(1), t.norm(a))), t.normalize(a))
    if isv and n == "set_magnitude":
        c.w(0, t.mul(t.normalize(a), c.v(1)))
        return UNIT
    if isv and n in ("dotc", "tr_dot"):
        return t.dot(a, c.v(1) if n == "dotc" else mk("transpose", (c.v(1),)))
    if n == "tr_mul":
        return t.mm(mk("transpose", (a,)), c.v(1))
    if n == "unscale_mut":
        c.w(0, t.div(a, c.v(1)))
        return UNIT
    if isv and n in ("component_mul_assign", "component_div_assign"):
        f = t.mul if "mul" in n else t.div
        b = c.v(1)
        c.w(0, agg("vec3", [f(c.e.comp(a, i), c.e.comp(b, i)) for i in range(3)]))
        return UNIT
    if n in ("inf", "sup", "inf_sup"):
        b = c.v(1)
        if not isv:
            both = [mk("entrywise", (a, b), x) for x in ("inf", "sup")]
            return agg("tuple", both) if n == "inf_sup" else both[n == "sup"]

        def ext(n):
            f = lambda x, y: mk("fmin" if n == "inf" else "fmax", (x, y) if x.id < y.id else (y, x))
            return agg("vec3", [f(c.e.comp(a, i), c.e.comp(b, i)) for i in range(3)])
        return agg("tuple", [ext("inf"), ext("sup")]) if n == "inf_sup" else ext(n)
    if isv and n in ("map", "zip_map", "apply"):
        b = c.v(1) if n == "zip_map" else None
        st, out = c.st, []
        for i in range(3):
            x = [c.e.comp(a, i)] + ([c.e.comp(b, i)] if b is not None else [])
            st, r = c.e.call_value(c.a[-1], x, st, c.fkey + ("comp", i), c.site)
            if st is None:
                return None, None
            out.append(r)
        c.st = st
        if n != "apply":
            return st, agg("vec3", out)
        c.w(0, agg("vec3", out))
        return st, UNIT
    if isv and n == "iter":
        return agg("iter:comps", [a, cint(0), cint(3)])
    if n == "cross":
        return t.cross(a, c.v(1))
    if n == "dot":
        return t.dot(a, c.v(1))
    if n == "scale":
        return t.mul(a, c.v(1))
    if n == "unscale":
        return t.div(a, c.v(1))
    if n in ("magnitude", "norm"):
        return t.mapite(a, t.norm)
    if n in ("magnitude_squared", "norm_squared"):
        return t.mapite(a, lambda x: t.dot(x, x))
    if n == "normalize":
        return t.mapite(a, t.normalize)
    if n == "normalize_mut":
        c.w(0, t.mapite(a, t.normalize))
        return t.norm(a)
    if n == "transpose":
        return mk("transpose", (a,))
    if n == "try_inverse":
        a = t.mapite(a, leftmost)
        return option(t.bvar(mk("batom", (a,), "invertible")), mk("minv", (a,)))
    if n in ("neg_mut",):
        c.w(0, t.neg(a))
        return UNIT
    if n == "scale_mut":
        c.w(0, t.mul(a, c.v(1)))
        return UNIT
    if n in ("into_owned", "clone_owned"):
        return a
    if n in ("component_mul", "component_div"):
        f = t.mul if n.endswith("mul") else t.div
        b = c.v(1)
        return agg("vec3", [f(c.e.comp(a, i), c.e.comp(b, i)) for i in range(3)])
    if n == "sum" and alg.kind(a) == "v":
        return t.add(t.add(c.e.comp(a, 0), c.e.comp(a, 1)), c.e.comp(a, 2))
    if n == "abs" and alg.kind(a) == "v":
        return agg("vec3", [t.fabs(c.e.comp(a, i)) for i in range(3)])
    if n == "lerp":
        k = c.v(2)
        return t.add(t.mul(a, t.sub(t.cflt("1.0"), k)), t.mul(c.v(1), k))
    if n == "diagonal":
        return agg("vec3", [mk("fld", (a,), 4 * i) for i in range(3)])
    if n == "outer":
        return t.mm(a, mk("transpose", (c.v(1),)))
    if n in ("abs", "max", "min", "sum", "max", "min", "amax", "iamax", "map", "trace", "determinant", "amin"):
        return mk("nalg:" + n, [deep(c.e, c.st, x) for x in c.a])
    return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)


@prim("~^nalgebra::base::construction::")
def _constr(c):
    n = c.res.split("::")[-1]
    if n == "zeros":
        s = c.fn["full"]
        ty = c.e.d.types[c.e.opty(c.fr, {"k": "copy", "p": c.tm["dst"]})] if c.tm else None
        if ty and "U3, nalgebra::U1" in ty["s"]:
            z = t.cflt("0.0")
            return agg("vec3", [z, z, z])
        return mk("zeros", (), "mat")
    if n == "new":
        return agg("vec3" if len(c.a) == 3 else "mat", [c.v(i) for i in range(len(c.a))])
    if n in ("x", "y", "z", "x_axis", "y_axis", "z_axis") and not c.a:
        k = "xyz".index(n[0])
        return agg("vec3", [t.cflt("1.0" if i == k else "0.0") for i in range(3)])
    if n in ("from_element", "repeat"):
        ty = c.e.d.types[c.e.opty(c.fr, {"k": "copy", "p": c.tm["dst"]})] if c.tm and c.fr else None
        if ty and "U3, nalgebra::U1" not in ty["s"]:
            return mk("zeros", (), "mat") if c.v(0) is t.cflt("0.0") else mk("nalg:" + n, (c.v(0),))
        return agg("vec3", [c.v(0)] * 3)
    if n in ("from_row_slice", "from_column_slice"):
        v = c.v(0)
        if v.op == "agg" and v.attr == "array" and len(v.args) == 3:
            return agg("vec3", v.args)
    if n in ("from_diagonal", "from_diagonal_element", "identity", "from_columns", "from_rows"):
        x = c.deep(0) if c.a else t.cflt("1.0")
        if n == "from_diagonal_element" or n == "identity":
            return mk("diag", (agg("vec3", [x, x, x]),))
        if n == "from_diagonal":
            return mk("diag", (x,))
        return mk("nalg:" + n, (x,))
    return mk("nalg:" + n, [deep(c.e, c.st, x) for x in c.a])


@prim("~^nalgebra::geometry::quaternion(_construction)?::<impl nalgebra::Unit")
def _quat(c):
    n = c.res.split("::")[-1]
    if n == "identity":
        return mk("qid")
    if n == "inverse":
        return qinv(c.v(0))
    if n == "inverse_mut":
        c.w(0, qinv(c.v(0)))
        return UNIT
    if n == "conjugate":
        return qinv(c.v(0))
    if n == "scaled_axis":
        return mk("qaxis", (c.v(0),))
    if n in ("from_scaled_axis", "new"):
        return mk("qfrom", (c.v(0),))
    if n == "to_rotation_matrix":
        return mk("qmat", (c.v(0),))
    if n in ("transform_vector", "transform_point"):
        return mk("qrot", (c.v(0), c.v(1)))
    if n in ("inverse_transform_vector", "inverse_transform_point"):
        return mk("qrot", (qinv(c.v(0)), c.v(1)))
    if n == "from_axis_angle":
        return mk("qfrom", (t.mul(c.v(0), c.v(1)),))
    if n == "rotation_to":
        return mk("qmul", (c.v(1), qinv(c.v(0))))
    if n == "powf":
        return mk("qfrom", (t.mul(mk("qaxis", (c.v(0),)), c.v(1)),))
    if n == "slerp":
        a, b = c.v(0), c.v(1)
        return mk("qmul", (mk("qfrom", (t.mul(mk("qaxis", (mk("qmul", (b, qinv(a))),)), c.v(2)),)), a))
    if n in ("renormalize", "renormalize_fast"):
        return c.v(0)
    if n == "conjugate_mut":
        c.w(0, qinv(c.v(0)))
        return UNIT
    if n.endswith("_mut"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    return mk("nalg:q_" + n, [deep(c.e, c.st, x) for x in c.a])


def qinv(q):
    if q.op == "qinv":
        return q.args[0]
    if q.op == "qid":
        return q
    if q.op == "qmul":
        return mk("qmul", (qinv(q.args[1]), qinv(q.args[0])))
    if q.op == "ite":
        return ite(q.attr, qinv(q.args[0]), qinv(q.args[1]))
    return mk("qinv", (q,))


def qrot(q, v):
    if v.op == "neg":
        return t.neg(qrot(q, v.args[0]))
    return mk("qrot", (q, v))


@prim("nalgebra::Rotation::<N, D>::transpose", "nalgebra::Rotation::<N, D>::inverse")
def _rott(c):
    return mk("transpose", (c.v(0),))


@prim("~^nalgebra::Rotation::<N, D>::(matrix|into_inner)$", "~^nalgebra::geometry::(point|translation)_conversion::.*::(from|into)$")
def _ptid(c):
    return c.a[0]


@prim("~^nalgebra::Isometry::<N, D, R>::")
def _iso(c):
    n = c.res.split("::")[-1]
    IR, IT = ("f", 0, 2, "iso"), ("f", 1, 2, "iso")
    p = c.e.project
    if n == "from_parts":
        return agg("iso", [c.v(1), c.v(0)])
    a = c.v(0)
    R, T = p(a, IR), p(a, IT)
    if n == "append_rotation_mut":
        q = c.v(1)
        c.w(0, agg("iso", [mk("qmul", (q, R)), qrot(q, T)]))
        return UNIT
    if n == "append_translation_mut":
        c.w(0, agg("iso", [R, t.add(T, c.v(1))]))
        return UNIT
    if n in ("inverse_mut", "inverse"):
        q = qinv(R)
        v = agg("iso", [q, t.neg(qrot(q, T))])
        if n == "inverse":
            return v
        c.w(0, v)
        return UNIT
    if n == "transform_point":
        return t.add(qrot(R, c.v(1)), T)
    if n == "transform_vector":
        return qrot(R, c.v(1))
    if n == "inverse_transform_point":
        return qrot(qinv(R), t.sub(c.v(1), T))
    if n == "inverse_transform_vector":
        return qrot(qinv(R), c.v(1))
    if n == "identity":
        return agg("iso", [mk("qid"), agg("vec3", [t.cflt("0.0")] * 3)])
    return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)


# ---- comparisons / clone
@prim("~std::cmp::PartialEq.*::(eq|ne)$", "std::cmp::PartialEq::ne", "std::cmp::PartialEq::eq")
def _eq(c):
    a, b = c.deep(0), c.deep(1)
    ty = targ(c.e, c.fn, 0)
    if ty and ty["k"] == "float":
        r = t.tobdd(c.e.fcmp(t.feq, a, b))
    elif ty and (ty.get("path") or "").startswith("nalgebra"):
        r = t.tobdd(t.feq(a, b)) if not (t.isvec3(a) and t.isvec3(b)) else t.band(t.band(t.tobdd(t.feq(a.args[0], b.args[0])), t.tobdd(t.feq(a.args[1], b.args[1]))), t.tobdd(t.feq(a.args[2], b.args[2])))
    else:
        r = c.e.keyeq(a, b)
    if c.fn["path"].endswith("::ne"):
        r = t.bnot(r)
    return t.frombdd(r)


@prim("~as std::clone::Clone>::clone$", "~<impl std::clone::Clone for .*>::clone$", "std::clone::Clone::clone", "~ToOwned.*::to_owned$", "~<impl \\[T\\]>::to_vec$",
      "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied")
def _clone(c):
    return deep(c.e, c.st, c.a[0])


@prim("~as std::default::Default>::default$", "std::default::Default::default")
def _default(c):
    return default_of(c.e, targ(c.e, c.fn, 0))


@prim("~as std::convert::(From|Into)<.*>>::(from|into)$")
def _from(c):
    return c.a[0]


# ---- Vec / slices
@prim("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def _vnew(c):
    return agg("vec", [cint(0), EMPTYMAP()])


@prim("~^std::vec::Vec::<T, A>::len$", "~<impl \\[T\\]>::len$", "~ExactSizeIterator>?::len$")
def _vlen(c):
    v = c.v(0)
    if v.op == "agg" and v.attr.startswith("iter:slice"):
        return t.iadd(v.args[2], v.args[1], -1)
    if v.op == "agg" and v.attr == "array":
        return cint(len(v.args))
    return c.e.veclen(v, c.st)


@prim("~^std::vec::Vec::<T, A>::is_empty$", "~<impl \\[T\\]>::is_empty$")
def _vempty(c):
    return t.ieq(c.e.veclen(c.v(0), c.st), cint(0))


@prim("~^std::vec::Vec::<T, A>::push$")
def _vpush(c):
    n = c.r(0, (VL,))
    c.w(0, c.a[1], (VM, ("idx", n)))
    c.w(0, t.iadd(n, cint(1)), (VL,))
    c.e.emit("push", c.st.pc, c.site, ref=c.a[0], val=c.a[1], at=n)
    return UNIT


@prim("~^std::vec::Vec::<T, A>::pop$")
def _vpop(c):
    n = c.r(0, (VL,))
    c1 = t.tobdd(t.ilt(cint(0), n))
    k = t.iadd(n, cint(1), -1)
    v = c.e.mksel(c.r(0, (VM,)), k, (), c.st)
    c.w(0, ite(c1, k, n), (VL,))
    return option(c1, v)


@prim("~^std::vec::Vec::<T, A>::clear$", "~^std::vec::Vec::<T, A>::truncate$")
def _vclear(c):
    c.e.emit("clear", c.st.pc, c.site, ref=c.a[0])
    if c.res.endswith("truncate"):
        c.w(0, c.a[1], (VL,))
    else:
        c.w(0, agg("vec", [cint(0), EMPTYMAP()]))
    return UNIT


@prim("~^std::vec::Vec::<T, A>::(reserve|shrink_to_fit|capacity|reserve_exact)$")
def _vres(c):
    return UNIT


def vecref(c, i):
    """normalise an argument that is (a reference to) a vec/slice/array to a ref to a vec"""
    return c.a[i]


@prim("~^<(?!generational_arena|std::collections|alloc::collections).*as std::ops::Index(Mut)?<.*>>::index(_mut)?$", "~<impl \\[T\\]>::get(_mut)?$")
def _vindex(c):
    e, st = c.e, c.st
    k = e.val(st, c.a[1])
    if k.op == "agg":
        return _vrange(c, k)
    v = c.v(0)
    n = e.veclen(v, st)
    ok = t.tobdd(t.ilt(k, n)) if k.op != "ite" and n.op != "ite" else t.tobdd(e.binop(None, "Lt", k, n, inttid(e), st))
    name = c.res.split("::")[-1]
    if name.startswith("get"):
        return option(ok, e.index_ref(c.a[0], k))
    if not c.panic(t.bnot(ok), "index", [k, n]):
        return None, None
    return e.index_ref(c.a[0], k)


def inttid(e):
    for i, ty in enumerate(e.d.types):
        if ty and ty["k"] in ("uint", "int"):
            return i
    return 0


def _vrange(c, k):
    e, st = c.e, c.st
    n = e.veclen(c.v(0), st)
    b = t.base_tag(k.attr)
    lo, hi = cint(0), n
    if b.endswith("RangeFrom"):
        lo = k.args[0]
    elif b.endswith("RangeTo"):
        hi = k.args[0]
    elif b.endswith("RangeFull"):
        pass
    elif b == RANGE:
        lo, hi = k.args[0], k.args[1]
    else:
        return unknown_call(e, c.fr, st, c.fn, c.a, c.fkey, c.site, c.tm)
    bad = t.bor(t.tobdd(t.ilt(n, hi)), t.tobdd(t.ilt(hi, lo)))
    if not c.panic(bad, "slice", [lo, hi, n]):
        return None, None
    return e.extref(c.a[0], (("sub", lo, t.iadd(hi, lo, -1)),))


@prim("~<impl \\[T\\]>::split_at(_mut)?$")
def _split(c):
    k = c.v(1)
    n = c.e.veclen(c.v(0), c.st)
    if not c.panic(t.tobdd(t.ilt(n, k)), "split_at", [k, n]):
        return None, None
    return agg("tuple", [c.e.extref(c.a[0], (("sub", cint(0), k),)), c.e.extref(c.a[0], (("sub", k, t.iadd(n, k, -1)),))])


@prim("~<impl \\[T\\]>::swap$")
def _sswap(c):
    i, j = c.v(1), c.v(2)
    n = c.e.veclen(c.v(0), c.st)
    if not c.panic(t.bnot(t.band(_iless(c, i, n), _iless(c, j, n))), "index", [i, j, n]):
        return None, None
    a, b = c.e.index_ref(c.a[0], i), c.e.index_ref(c.a[0], j)
    x, y = c.e.rref(c.st, a), c.e.rref(c.st, b)
    c.e.wref(c.st, a, (), y, c.site)
    c.e.wref(c.st, b, (), x, c.site)
    return UNIT


@prim("~<impl \\[T\\]>::split_(first|last)(_mut)?$")
def _splitf(c):
    n = c.e.veclen(c.v(0), c.st)
    m = t.iadd(n, cint(1), -1)
    f = "first" in c.res.split("::")[-1]
    r = c.e.extref(c.a[0], (("sub", cint(1) if f else cint(0), m),))
    return option(t.tobdd(t.ilt(cint(0), n)), agg("tuple", [c.e.index_ref(c.a[0], cint(0) if f else m), r]))


@prim("~<impl \\[T\\]>::windows$")
def _windows(c):
    n = c.e.veclen(c.v(0), c.st)
    k = c.v(1)
    if k.op != "i" or k.attr < 1:
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    return agg("iter:win%d" % k.attr, [c.a[0], cint(0), t.iadd(n, cint(k.attr - 1), -1)])


@prim("~^std::vec::Vec::<T, A>::drain$")
def _vdrain(c):
    k = c.v(1)
    v = c.v(0)
    if not t.base_tag(k.attr or "").endswith("RangeFull"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    c.w(0, agg("vec", [cint(0), EMPTYMAP()]))
    return agg("iter:vec", [v, cint(0), c.e.veclen(v, c.st)])


@prim("~<impl \\[T\\]>::(first|last)(_mut)?$")
def _first(c):
    n = c.e.veclen(c.v(0), c.st)
    k = cint(0) if "first" in c.res.split("::")[-1] else t.iadd(n, cint(1), -1)
    return option(t.tobdd(t.ilt(cint(0), n)), c.e.index_ref(c.a[0], k))


@prim("~<impl \\[T\\]>::iter(_mut)?$", "~^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", "~&'a (mut )?\\[T(; N)?\\].*into_iter$", "~slice.*<impl .*IntoIterator for &.*\\[T\\]>::into_iter$")
def _iter(c):
    v = c.v(0)
    if v.op == "agg" and v.attr == "array":
        n = cint(len(v.args))
        r = mkref(("val", arr2vec(v)), ())
        return agg("iter:slice", [r, cint(0), n])
    return agg("iter:slice", [c.a[0], cint(0), c.e.veclen(v, c.st)])


@prim("~^std::option::Option::<T>::iter(_mut)?$", "~^<&'a (mut )?std::option::Option<T> as std::iter::IntoIterator>::into_iter$")
def _oiter(c):
    return agg("iter:opt", [option(some_cond(c.v(0)), c.e.extref(c.a[0], (("v", 1), ("f", 0, 1, OPT + "#1")))), cint(0), cint(1)])


@prim("<std::option::Option<T> as std::iter::IntoIterator>::into_iter")
def _ointo(c):
    return agg("iter:opt", [c.v(0), cint(0), cint(1)])


@prim("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _viter(c):
    v = c.v(0)
    return agg("iter:vec", [v, cint(0), c.e.veclen(v, c.st)])


@prim("~\\[T; N\\] as .*IntoIterator>::into_iter$", "~<impl .*IntoIterator for \\[T; N\\]>::into_iter$")
def _aiter(c):
    v = arr2vec(c.v(0))
    return agg("iter:vec", [v, cint(0), c.e.veclen(v, c.st)])


@prim("<I as std::iter::IntoIterator>::into_iter")
def _iditer(c):
    return c.a[0]


# ---- sets
@prim("~^std::collections::(HashSet|BTreeSet)::<T(, S)?(, A)?>::(new|with_capacity)$", "~^std::collections::(HashSet|BTreeSet)::<.*>::new$")
def _snew(c):
    return EMPTYSET()


@prim("~^std::collections::(HashSet|BTreeSet)::<.*>::(insert|remove|contains|clear|len|is_empty|iter|extend|retain|drain|take|replace|get)$")
def _set(c):
    n = c.res.split("::")[-1]
    e = c.e
    S = c.v(0)
    if n == "contains":
        return t.frombdd(contains(e, S, c.deep(1)))
    if n == "len":
        return mk("slen", (S,)) if S.op != "emptyset" else cint(0)
    if n == "is_empty":
        return TRUE if S.op == "emptyset" else t.ieq(mk("slen", (S,)), cint(0))
    if n == "clear":
        c.w(0, EMPTYSET())
        return UNIT
    if n == "insert":
        k = c.deep(1)
        was = contains(e, S, k)
        c.w(0, sins(e, S, k))
        return t.frombdd(t.bnot(was))
    if n in ("remove",):
        k = c.deep(1)
        was = contains(e, S, k)
        c.w(0, srem(e, S, k))
        return t.frombdd(was)
    if n == "iter":
        return agg("iter:set" if "Hash" in c.res else "iter:oset", [c.a[0], S, cint(0)])
    if n == "drain":
        c.w(0, EMPTYSET())
        return agg("iter:setv", [UNIT, S, cint(0)])
    return unknown_call(e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)


@prim("~^<&'a std::collections::(HashSet<T, S, A>|BTreeSet<T, A>) as std::iter::IntoIterator>::into_iter$")
def _siter(c):
    return agg("iter:set" if "Hash" in c.res else "iter:oset", [c.a[0], c.v(0), cint(0)])


@prim("~^<std::collections::(HashSet<T, S, A>|BTreeSet<T, A>) as std::iter::IntoIterator>::into_iter$")
def _sviter(c):
    return agg("iter:setv" if "Hash" in c.res else "iter:osetv", [UNIT, c.v(0), cint(0)])


# ---- deque
@prim("~^std::collections::VecDeque::<.*>::(new|with_capacity)$")
def _qnew(c):
    return mk("qnew")


@prim("~^std::collections::VecDeque::<.*>::(push_back|push_front)$")
def _qpush(c):
    c.w(0, mk("qpush", (c.v(0), c.a[1])))
    return UNIT


@prim("~^std::collections::VecDeque::<.*>::(pop_front|pop_back)$")
def _qpop(c):
    q = c.v(0)
    more = 0 if q.op == "qnew" else (1 if q.op == "qpush" else t.bvar(mk("more", (q,), "q")))
    c.w(0, ite(more, mk("qrest", (q,)), q))
    return option(more, mk("qitem", (q,)))


@prim("~^std::collections::VecDeque::<.*>::(is_empty|len)$")
def _qempty(c):
    q = c.v(0)
    more = 0 if q.op == "qnew" else (1 if q.op == "qpush" else t.bvar(mk("more", (q,), "q")))
    return t.frombdd(t.bnot(more))


# ---- arena
@prim("~^generational_arena::Arena::<T>::(new|with_capacity)$")
def _anew(c):
    return agg("arena", [NOLIVE(), EMPTYMAP()])


@prim("~^generational_arena::Arena::<T>::(insert|remove|get|get_mut|get2_mut|contains|iter|iter_mut|len|is_empty|clear|drain|retain)$", "~^<generational_arena::Arena<T> as std::ops::Index(Mut)?<.*>>::index(_mut)?$")
def _arena(c):
    n = c.res.split("::")[-1]
    e, st = c.e, c.st
    A = c.v(0)
    L = e.project(A, AL, st)
    M = e.project(A, AM, st)
    if n == "len":
        return mk("alen", (L,))
    if n == "is_empty":
        return t.ieq(mk("alen", (L,)), cint(0))
    if n == "insert":
        k = mk("newh", (), c.fkey)
        e.emit("ainsert", st.pc, c.site, ref=c.a[0], key=k, val=c.a[1])
        c.w(0, c.a[1], (AM, ("idx", k)))
        c.w(0, mk("lins", (L, k)), (AL,))
        return k
    if n in ("iter", "iter_mut"):
        return agg("iter:arena", [c.a[0], L, cint(0)])
    k = c.deep(1) if len(c.a) > 1 else None
    if n == "contains":
        return t.frombdd(live(e, L, k))
    if n in ("get", "get_mut"):
        return option(live(e, L, k), e.extref(c.a[0], (AM, ("idx", k))))
    if n in ("index", "index_mut"):
        if not c.panic(t.bnot(live(e, L, k)), "arena index", [k]):
            return None, None
        return e.extref(c.a[0], (AM, ("idx", k)))
    if n == "get2_mut":
        k2 = c.deep(2)
        if not c.panic(e.keyeq(k, k2), "get2_mut same key", [k, k2]):
            return None, None
        return agg("tuple", [option(live(e, L, k), e.extref(c.a[0], (AM, ("idx", k)))), option(live(e, L, k2), e.extref(c.a[0], (AM, ("idx", k2))))])
    if n == "remove":
        lv = live(e, L, k)
        v = e.mksel(M, k, (), st)
        e.emit("aremove", t.band(st.pc, lv), c.site, ref=c.a[0], key=k, val=v)
        c.w(0, ite(lv, mk("lrem", (L, k)), L), (AL,))
        return option(lv, v)
    if n == "clear":
        c.w(0, agg("arena", [NOLIVE(), EMPTYMAP()]))
        return UNIT
    return unknown_call(e, c.fr, st, c.fn, c.a, c.fkey, c.site, c.tm)


@prim("~<&'a (mut )?generational_arena::Arena<T> as std::iter::IntoIterator>::into_iter$")
def _aiter2(c):
    L = c.e.project(c.v(0), AL, c.st)
    return agg("iter:arena", [c.a[0], L, cint(0)])


# ---- Any
@prim("~dyn std::any::Any.*::downcast_(ref|mut)$", "~dyn std::any::Any.*::is$")
def _downcast(c):
    ty = targ(c.e, c.fn, 0)
    T = ty["path"]
    cond = dyncond(c.e, c.v(0), T)
    if c.res.endswith("::is"):
        return t.frombdd(cond)
    return option(cond, c.e.extref(c.a[0], (("dyn", T),)))


@prim("~^std::ops::RangeInclusive::<Idx>::new$")
def _rinc(c):
    ty = targ(c.e, c.fn, 0)
    if ty and ty["k"] in ("int", "uint"):
        return agg(RANGE, [c.v(0), t.iadd(c.v(1), cint(1))])
    return None


# ---- iterators
def native_iter(v):
    return v.op == "agg" and (v.attr.startswith("iter:") or v.attr == RANGE)


def iless(a, b):
    """a < b, case by case where either is one of a few constants"""
    if "ite" in (a.op, b.op):
        la, lb = t.leaves(a), t.leaves(b)
        if len(la) * len(lb) < 10 and all(x.op == "i" for _, x in la + lb):
            r = 0
            for c, x in la:
                for d, y in lb:
                    if x.attr < y.attr:
                        r = t.bor(r, t.band(c, d))
            return r
    return t.tobdd(t.ilt(a, b))


def step_iter(eng, st, itref, site, back=False):
    """advance a native iterator stored at itref -> Option value"""
    it = eng.val(st, itref)
    if it.op == "ite":
        # same kinds merged already by ite(); give up otherwise
        return None
    if not native_iter(it):
        return None
    k = it.attr
    if k == RANGE:
        a, b = it.args
        more = t.tobdd(eng.binop(None, "Lt", a, b, inttid(eng), st))
        more = cons(more, st.pc)
        if back:
            x = t.iadd(b, cint(1), -1)
            eng.wref(st, itref, (("f", 1, 2, RANGE),), ite(more, x, b), site)
        else:
            x = a
            eng.wref(st, itref, (("f", 0, 2, RANGE),), ite(more, t.iadd(a, cint(1)), a), site)
        return option(more, x)
    kind = k[5:]
    if kind in ("zip", "chain"):
        f0, f1 = (itref.attr[0], itref.attr[1] + (("f", 0, 2, k),)), (itref.attr[0], itref.attr[1] + (("f", 1, 2, k),))
        if back:
            return None
        pc = st.pc
        a = step_iter(eng, st, mkref(*f0), site)
        if a is None:
            return None
        ca = some_cond(a)
        # the second is only asked when the first has one (zip) or has none (chain)
        before = eng.rref(st, mkref(*f1))
        b = step_iter(eng, st, mkref(*f1), site)
        if b is None:
            return None
        cb = some_cond(b)
        go = ca if kind == "zip" else t.bnot(ca)
        after = eng.rref(st, mkref(*f1))
        eng.wref(st, mkref(*f1), (), ite(cons(go, pc), after, before), site)
        if kind == "zip":
            return option(cons(t.band(ca, cb), pc), agg("tuple", [payload(eng, st, a), payload(eng, st, b)]))
        return option(cons(t.bor(ca, cb), pc), ite(ca, payload(eng, st, a), payload(eng, st, b)))
    if kind == "rev":
        return step_iter(eng, st, mkref(itref.attr[0], itref.attr[1] + (("f", 0, 1, k),)), site, not back)
    if kind == "cycle":
        src, i, n = it.args
        more = cons(t.tobdd(t.ilt(cint(0), n)), st.pc)
        eng.wref(st, itref, (("f", 1, 3, k),), t.iadd(i, cint(1)), site)
        return None if back else option(more, eng.index_ref(src, eng.binop(None, "Rem", i, n, inttid(eng), st)))
    if kind == "opt":                                  # the value in an Option, if any
        src, i, n = it.args
        more = cons(t.band(iless(i, n), some_cond(src)), st.pc)
        eng.wref(st, itref, (("f", 1, 3, k),), n, site)
        return option(more, payload(eng, st, src))
    if kind == "comps" or kind.startswith("win"):
        src, i, n = it.args
        more = cons(t.tobdd(t.ilt(i, n)), st.pc)
        if back or kind == "comps" and i.op != "i":
            return None
        eng.wref(st, itref, (("f", 1, 3, k),), ite(more, t.iadd(i, cint(1)), i), site)
        if kind == "comps":
            return option(more, mkref(("val", eng.comp(src, i.attr)), ()) if i.attr < 3 else UNINIT)
        return option(more, eng.extref(src, (("sub", i, cint(int(kind[3:]))),)))
    if kind in ("slice", "vec"):
        src, i, n = it.args
        more = cons(iless(i, n), st.pc)
        if back:
            j = t.iadd(n, cint(1), -1)
            eng.wref(st, itref, (("f", 2, 3, k),), ite(more, j, n), site)
        else:
            j = i
            eng.wref(st, itref, (("f", 1, 3, k),), ite(more, t.iadd(i, cint(1)), i), site)
        if kind == "slice":
            return option(more, eng.index_ref(src, j))
        return option(more, eng.mksel(eng.project(src, VM, st), j, (), st))
    if kind in ("set", "oset", "setv", "osetv"):
        src, S, i = it.args
        more = 0 if S.op == "emptyset" else t.bvar(mk("more", (S, i)))
        eng.wref(st, itref, (("f", 2, 3, k),), ite(more, t.iadd(i, cint(1)), i), site)
        if not kind.startswith("o"):
            eng.emit("hashiter", t.band(st.pc, more), site, set=S)
        x = mk("sitem", (S, i))
        if kind in ("set", "oset"):
            x = mkref(("val", x), ())
        return option(more, x)
    if kind == "arena":
        src, L, i = it.args
        more = 0 if L.op == "nolive" else t.bvar(mk("more", (L, i)))
        eng.wref(st, itref, (("f", 2, 3, k),), ite(more, t.iadd(i, cint(1)), i), site)
        h = mk("aitem", (L, i))
        return option(more, agg("tuple", [h, eng.extref(src, (AM, ("idx", h)))]))
    return None


def cons(c, pc):
    r = t.bcons(c, pc)
    return r if r < 2 else c


@prim("~Iterator(>| for .*>)::next(_back)?$", "std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def _next(c):
    r = step_iter(c.e, c.st, c.a[0], c.site, back=c.fn["path"].endswith("next_back"))
    if r is None:
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    return r


def advance(eng, c, st, itref, fkey):
    it = eng.val(st, itref)
    if native_iter(it):
        return st, step_iter(eng, st, itref, c.site)
    for nx in c.fn.get("nexts", []):
        p = eng.d.types[nx["t"]].get("path")
        if nx["id"] is not None and it.op == "agg" and t.base_tag(it.attr) == p:
            return eng.call_fn(nx["id"], [itref], st, fkey, c.site)
    return None, None


def consume(c, itv, acc0, body):
    """generic consumer loop: body(state, item, acc) -> (state, acc', stop BDD)"""
    e = c.e
    fid = ("cons",) + tuple(c.fkey)
    fid = mk("frame", (), fid).id
    itroot, accroot = ("L", fid, "it"), ("L", fid, "acc")
    st = c.st
    st.mem[itroot] = itv
    st.mem[accroot] = acc0
    itref = mkref(itroot, ())
    key = ("loop", fid, "consume")

    def run(s):
        s, o = advance(e, c, s, itref, c.fkey + ("next",))
        if s is None:
            raise NotImplementedError
        m = t.band(s.pc, some_cond(o))
        outs = {}
        ex = t.band(s.pc, t.bnot(some_cond(o)))
        if ex:
            outs.setdefault("exit", []).append(s.copy(ex))
        if m:
            s1 = s.copy(m)
            item = t.simp(payload(e, s1, o), m)
            s1, acc, stop = body(s1, item, s1.mem[accroot])
            if s1 is not None:
                s1.mem[accroot] = acc
                b = t.band(s1.pc, t.bnot(stop))
                x = t.band(s1.pc, stop)
                if b:
                    outs.setdefault("h", []).append(s1.copy(b))
                if x:
                    outs.setdefault("exit", []).append(s1.copy(x))
        return outs
    base = c.fkey

    def run1(s):
        c.fkey = base + tuple(e.peel[len(peel):])
        return run(s)
    peel = e.peel
    try:
        outs = e.peeled(fid, st, run1, "h")
        c.fkey = base
        if outs is None:
            info = e.loopinfo.setdefault(key, dict(fn=c.fn["path"], site=c.site))
            outs = e.fixloop(key, info, st, run, "h")
    except NotImplementedError:
        c.fkey, e.peel = base, peel
        return unknown_call(e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    s = merge(outs.get("exit", []))
    if s is None:
        return None, None
    acc = s.mem.pop(accroot)
    it = s.mem.pop(itroot)
    return s, acc


@prim("~(Iterator>?|Iterator for .*>)::(fold|for_each|any|all|find|position|count|sum|product|min_by|max_by|try_fold|last|nth)$")
def _fold(c):
    e = c.e
    n = c.fn["path"].split("::")[-1]
    byref = n in ("any", "all", "find", "position", "try_fold", "nth")
    itv = c.v(0) if byref else c.a[0]

    def call(s, f, args, tag):
        return e.call_value(f, args, s, c.fkey + (tag,), c.site)

    if n == "fold":
        def body(s, x, acc):
            s, r = call(s, c.a[2], [acc, x], "f")
            return s, r, 0
        return consume(c, itv, c.a[1], body)
    if n == "for_each":
        def body(s, x, acc):
            s, r = call(s, c.a[1], [x], "f")
            return s, acc, 0
        return consume(c, itv, UNIT, body)
    if n in ("any", "all"):
        want = n == "any"

        def body(s, x, acc):
            s, r = call(s, c.a[1], [x], "f")
            if s is None:
                return None, None, 0
            b = t.tobdd(r)
            if not want:
                b = t.bnot(b)
            return s, ite(b, TRUE if want else FALSE, acc), b
        return consume(c, itv, FALSE if want else TRUE, body)
    if n == "find":
        def body(s, x, acc):
            root = ("L", mk("frame", (), c.fkey + ("find",)).id, "x")
            s.mem[root] = x
            s, r = call(s, c.a[1], [mkref(root, ())], "f")
            if s is None:
                return None, None, 0
            b = t.tobdd(r)
            return s, ite(b, Some(x), acc), b
        return consume(c, itv, NONE, body)
    if n == "count":
        return consume(c, itv, cint(0), lambda s, x, acc: (s, t.iadd(acc, cint(1)), 0))
    if n == "last":
        return consume(c, itv, NONE, lambda s, x, acc: (s, Some(x), 0))
    return unknown_call(e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)


@prim("~SpecAssumeCount(>|::)(::)?assume_count_(le|ge)_.*$", "~std::hint::assert_unchecked(::precondition_check)?$")
def _assume(c):
    return UNIT


@prim("~<std::(slice::Iter<'a, T>|slice::IterMut<'a, T>|vec::IntoIter<T.*>) as std::iter::Iterator>::size_hint$")
def _sizehint(c):
    it = c.v(0)
    if it.op != "agg" or it.attr not in ("iter:slice", "iter:vec"):
        return unknown_call(c.e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    n = t.iadd(it.args[2], it.args[1], -1)
    return agg("tuple", [n, Some(n)])


@prim("~<impl \\[T\\]>::contains$")
def _lcontains(c):
    """a search from the first element to the first equal one"""
    e = c.e
    ty = targ(e, c.fn, 0) or {}
    w = c.deep(1)
    it = agg("iter:slice", [c.a[0], cint(0), e.veclen(c.v(0), c.st)])

    def eq(ty, a, b):
        if ty.get("k") == "tuple":
            n = len(ty["args"])
            r = 1
            for i, x in enumerate(ty["args"]):
                f = ("f", i, n, "tuple")
                q = eq(e.d.types[x], e.project(a, f), e.project(b, f))
                if q is None:
                    return None
                r = t.band(r, q)
            return r
        if ty.get("k") == "float":
            return t.tobdd(e.fcmp(t.feq, a, b))
        if ty.get("k") in ("int", "uint"):
            return t.tobdd(t.ieq(a, b))
        if ty.get("k") == "adt" and not (ty.get("path") or "").startswith(("nalgebra", "std::")):
            return e.keyeq(a, b)
        return None
    if eq(ty, t.sym("a"), t.sym("b")) is None:
        return unknown_call(e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)

    def body(s, x, acc):
        b = eq(ty, e.val(s, x), w)
        return s, ite(b, TRUE, acc), b
    return consume(c, it, FALSE, body)


def adapt(c, n):
    """iterator adaptors over the iterators modelled here; None: use the library's own code"""
    e, st = c.e, c.st
    it = e.val(st, c.a[0])
    lin = it.attr in (RANGE, "iter:slice", "iter:vec")
    if n == "rev":
        return agg("iter:rev", [it])
    if n in ("skip", "take") and (lin or it.attr == "iter:cycle" and n == "skip"):
        k = c.v(1)
        a = list(it.args)
        at = len(a) - 2
        if n == "skip":
            a[at] = t.iadd(a[at], k)
        else:
            end = t.iadd(a[at], k)
            a[at + 1] = ite(_iless(c, end, a[at + 1]), end, a[at + 1])
        return agg(it.attr, a)
    if n == "cycle" and it.attr == "iter:slice" and it.args[1] is cint(0):
        return agg("iter:cycle", it.args)
    if n in ("zip", "chain"):
        b = c.a[1]
        bv = e.val(st, b)
        if not native_iter(bv):
            ty = argtypes(e, c.fr, c.tm)
            p = (ty[1] or {}) if len(ty) > 1 else {}
            tgt = e.d.types[p["to"]] if p.get("k") == "ref" and "to" in p else p
            if p.get("k") == "ref" and ((tgt.get("path") or "").startswith("std::vec::Vec") or tgt.get("k") in ("slice", "array")):
                bv = _iter(C(e, c.fr, st, c.fn, [b], c.fkey, c.site, c.tm, c.res))
            elif (p.get("path") or "").startswith("std::vec::Vec"):
                bv = agg("iter:vec", [bv, cint(0), e.veclen(bv, st)])
            else:
                return None
        return agg("iter:" + n, [it, bv])
    if n == "position":
        def body(s, x, acc):
            s, r = e.call_value(c.a[1], [x], s, c.fkey + ("f",), c.site)
            if s is None:
                return None, None, 0
            b = t.tobdd(r)
            i, res = acc.args
            return s, agg("tuple", [ite(b, i, t.iadd(i, cint(1))), ite(b, Some(i), res)]), b
        s, acc = consume(c, it, agg("tuple", [cint(0), NONE]), body)
        return (s, None) if s is None else (s, acc.args[1])
    if n == "find_map":
        def body(s, x, acc):
            s, r = e.call_value(c.a[1], [x], s, c.fkey + ("f",), c.site)
            if s is None:
                return None, None, 0
            b = some_cond(r)
            return s, ite(b, r, acc), b
        return consume(c, it, NONE, body)
    return None


@prim("~std::iter::(Sum|Product)(<.*>)?>?( for .*>)?::(sum|product)$", "std::iter::Sum::sum")
def _sum(c):
    e = c.e
    ty = targ(c.e, c.fn, 0)
    fl = bool(ty and ty["k"] == "float")
    isf = fl or bool(ty and (ty.get("path") or "").startswith("nalgebra"))
    z = t.cflt("0.0") if fl else (agg("vec3", [t.cflt("0.0")] * 3) if isf else cint(0))
    return consume(c, c.a[0], z, lambda s, x, acc: (s, (t.add if isf else t.iadd)(acc, e.val(s, x)), 0))


@prim("~(FromIterator|from_iter).*::from_iter$", "~Extend.*::extend$", "std::iter::FromIterator::from_iter", "std::iter::Extend::extend")
def _collect(c):
    e = c.e
    ext = c.fn["path"].endswith("extend")
    ty = targ(e, c.fn, 0)
    p = (ty or {}).get("path") or ""
    src = c.a[1] if ext else c.a[0]
    if src.op == "ref":
        pass
    init = c.v(0) if ext else default_of(e, ty)
    sty = (argtypes(e, c.fr, c.tm) + [{}, {}])[1 if ext else 0] or {}
    if not (src.op == "agg" and src.attr == "vec") and (sty.get("path") or "").startswith("std::vec::Vec"):
        src = agg("vec", [e.project(src, VL, c.st), e.project(src, VM, c.st)])
    if src.op == "agg" and src.attr == "vec":
        src = agg("iter:vec", [src, cint(0), src.args[0]])
    if p.startswith("std::vec::Vec"):
        def body(s, x, acc):
            n = e.project(acc, VL, s)
            return s, agg("vec", [t.iadd(n, cint(1)), e.upd(e.project(acc, VM, s), (("idx", n),), x, s)]), 0
    elif p.startswith(SETS):
        def body(s, x, acc):
            return s, sins(e, acc, deep(e, s, x)), 0
    elif p.startswith("std::collections::VecDeque"):
        init = mk("qnew") if not ext else init

        def body(s, x, acc):
            return s, mk("qpush", (acc, x)), 0
    else:
        return unknown_call(e, c.fr, c.st, c.fn, c.a, c.fkey, c.site, c.tm)
    r = consume(c, src, init, body)
    if not isinstance(r, tuple) or r[0] is None or not ext:
        return r
    s, acc = r
    e.wref(s, c.a[0], (), acc, c.site)
    return s, UNIT
