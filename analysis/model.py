"""Vocabulary shared by the checks: where the API, the state and the traits of the crate
are, how to run an operation of the API on a symbolic system, and how to report."""
import json, os
import alg, engine, prims
import terms as t
from engine import Dump, Engine, St, AnalysisError, mkref, Some, NONE, OPT, RES, init_root
from terms import mk, agg, ite, cint, TRUE, FALSE, UNIT, UNINIT

SYSTEM = "PhysicsSystem"
SELF = ("arg0",)


class Model:
    def __init__(self, path):
        self.path = path
        self.d = Dump(path)
        self.tier = "quick"
        d = self.d
        self.sys = d.type_named("physics_system::PhysicsSystem")
        self.ient = d.type_named("entity::InternalEntity")
        self.ent = d.type_named("entity::Entity")
        self.wrapper = d.type_named("collider_wrapper::ColliderWrapper")
        self.orient = d.type_named("orientation::Orientation")
        self.P_ent = d.fproj(self.sys, "entities")
        self.P_col = d.fproj(self.sys, "colliders")
        self.P_gen = d.fproj(self.sys, "unary_force_generators")
        # the internal collider types: implementors of the trait whose boxes the system stores
        self.ctraits = self._collider_types()

    def _collider_types(self):
        out = {}
        for f in self.d.fns.values():
            tr = f.get("impl_trait")
            if f["local"] and tr and "InternalCollider" in str(tr):
                ty = self.d.types[f["impl_self"]]
                out.setdefault(ty["path"], {"tid": f["impl_self"], "m": {}})["m"][f["name"]] = f["id"]
        if len(out) < 5:
            raise AnalysisError("expected at least 5 collider implementations, found %d" % len(out))
        return out

    # ------------------------------------------------------------ functions
    def api(self, name):
        return self.d.fn("fluffy_tribble::physics_system::PhysicsSystem::" + name)

    def public_api(self):
        return [f for f in self.d.fns.values() if f["local"] and f.get("impl_self") == self.sys and f["vis"] == "pub" and not f.get("impl_trait") and f["kind"] == "fn"]

    def fn(self, p):
        return self.d.fn(p)

    def engine(self, opaque=(), **kw):
        e = Engine(self.d, opaque=opaque, **kw)
        for f in self.user_traits():
            e.open_virtual.add(f)
        return e

    def user_traits(self):
        """methods of exported traits that users implement"""
        r = set()
        for f in self.d.fns.values():
            for b in f["blocks"]:
                tm = b["t"]
                if tm["k"] == "call" and tm["f"]["k"] == "fn":
                    fn = tm["f"]["fn"]
                    if fn.get("virtual") and fn["trait"].endswith("UnaryForceGenerator"):
                        r.add(fn["path"])
        return r

    def virtual_paths(self, names):
        """trait methods called through a vtable, by name"""
        r = set()
        for f in self.d.fns.values():
            for b in f["blocks"]:
                tm = b["t"]
                if tm["k"] == "call" and tm["f"]["k"] == "fn" and tm["f"]["fn"].get("virtual") and tm["f"]["fn"]["path"].split("::")[-1] in names:
                    r.add(tm["f"]["fn"]["path"])
        return r

    def run(self, e, name, args, st=None):
        f = self.api(name) if isinstance(name, str) else name
        return e.call_fn(f["id"], args, st if st is not None else St({}, 1), ("root", f["path"]), (f["path"], "entry"))

    def selfref(self):
        return mkref(SELF, ())

    # ------------------------------------------------------------ state
    def system(self, st=None):
        if st is None:
            return init_root(SELF)
        return st.mem.get(SELF, init_root(SELF))

    def arena(self, e, sysv, which):
        return e.project(sysv, {"ent": self.P_ent, "col": self.P_col, "gen": self.P_gen}[which])

    def alive(self, e, sysv, which, k):
        return prims.live(e, e.project(self.arena(e, sysv, which), prims.AL), k)

    def amap(self, e, sysv, which):
        return e.project(self.arena(e, sysv, which), prims.AM)

    def efield(self, e, sysv, k, *names):
        """field (path of names) of entity k"""
        tid = self.ient
        path = []
        for n in names:
            path.append(self.d.fproj(tid, n))
            tid = self.d.fields(tid)[self.d.field_index(tid, n)]["t"]
        return e.mksel(self.amap(e, sysv, "ent"), k, tuple(path))

    def collider_link(self, e, sysv, k):
        """value of get_entity() of collider k, all types"""
        return self.collider_get(e, sysv, k, "get_entity")

    def collider_get(self, e, sysv, k, meth):
        """value of a getter of collider k, all types"""
        m = self.amap(e, sysv, "col")
        base = e.mksel(m, k, ())
        root = ("tmpcol",)
        r = None
        for path, info in sorted(self.ctraits.items()):
            st = St({root: base}, 1)
            c = prims.dyncond(e, base, path)
            if c == 0:
                continue
            s, v = e.call_fn(info["m"][meth], [mkref(root, (("dyn", path),))], st, ("getent", path, meth), (meth, "link"))
            r = v if r is None else ite(c, v, r)
        return r

    def wrapper_variants(self):
        """[(variant index, name, public collider type id)]"""
        return [(i, v["n"], v["f"][0]["t"]) for i, v in enumerate(self.d.types[self.wrapper]["variants"])]

    def wrap(self, i, src):
        return agg(self.d.tag(self.wrapper, i), [src])

    def struct_sym(self, tid, name, depth=3):
        """symbolic aggregate of a struct type with one symbol per field"""
        ty = self.d.types[tid]
        if ty["k"] == "adt" and ty["adt"] == "struct" and ty["local"] and depth:
            return agg(self.d.tag(tid), [self.struct_sym(f["t"], name + "." + f["n"], depth - 1) for f in ty["variants"][0]["f"]])
        x = t.sym(name)
        k = alg.typekind(self.d.types, tid)
        if k:
            alg.setkind(x, k)
        return x


def is_option_none(c):
    return t.variant_of(c) == 0


def fail_cond(e, ret, kind):
    """BDD: the returned value signals failure. kind: 'option' | 'result' | 'bool'"""
    r = 0
    for c, l in t.leaves(ret):
        if l is UNINIT:
            continue
        if kind == "bool":
            x = t.bnot(t.tobdd(l))
        else:
            v = t.variant_of(l) if l.op == "agg" else None
            want = 0 if kind == "option" else 1
            if v is None:
                b = t.bvar(mk("is", (l,), 1))
                x = b if want == 1 else t.bnot(b)
            else:
                x = 1 if v == want else 0
        r = t.bor(r, t.band(c, x))
    return r


def ret_kind(M, f):
    ty = M.d.types[f["locals"][0][0]]
    if ty["k"] == "bool":
        return "bool"
    if ty["k"] == "adt" and ty["path"] == OPT:
        return "option"
    if ty["k"] == "adt" and ty["path"] == RES:
        return "result"
    return None


# ---------------------------------------------------------------- restriction of a term to a condition
def restrict(x, c, memo=None):
    """x simplified under condition c (every decision of x implied by c is taken)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "ite":
            n = t.bcons(x.attr, c)
            if t.band(c, x.attr) == 0:
                r = go(x.args[1])
            elif t.band(c, t.bnot(x.attr)) == 0:
                r = go(x.args[0])
            else:
                r = ite(x.attr, go(x.args[0]), go(x.args[1]))
        elif x.op == "agg":
            r = agg(x.attr, [go(a) for a in x.args])
        elif x.op == "store":
            m, k, v = x.args
            m, v = go(m), go(v)
            r = t.mk("store", (m, k, v), x.attr)
            if v.op == "sel" and v.args[0] is m and v.args[1] is k and v.attr == x.attr:
                r = m
            elif v.op == "sel" and v.args[1] is k and v.attr == x.attr and m.op == "store":
                # value read below unrelated stores
                if _sel_through(m, k, x.attr) is v:
                    r = m
        elif x.op == "cond":
            n = x.attr
            if t.band(c, n) == 0:
                r = FALSE
            elif t.band(c, t.bnot(n)) == 0:
                r = TRUE
            else:
                r = x
        else:
            r = x
        memo[x.id] = r
        return r
    return go(x)


def _sel_through(m, k, path):
    e = Engine.__new__(Engine)
    e.mupaths = {}
    return Engine.mksel(e, m, k, path, None)


# ---------------------------------------------------------------- reports
class Report:
    def __init__(self, pid, M):
        self.pid, self.M = pid, M
        self.viol = []            # (key, text)
        self.obl = 0
        self.done = 0
        self.cov = {}
        self.samples = []
        self.assume = []
        self.level = "other"
        self.expl = ""

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def setc(self, k, v):
        self.cov[k] = v

    def check(self, ok, key, text, sample=None):
        """one obligation"""
        self.obl += 1
        if ok:
            self.done += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            if key not in [k for k, _ in self.viol]:
                self.viol.append((key, text))
        return ok

    def either(self, *fs):
        """equivalent ways to state the same obligations: the first that all hold for, else the first"""
        first = None
        for f in fs:
            r = Report(self.pid, self.M)
            f(r)
            first = first or r
            if not r.viol:
                first = r
                break
        r = first
        self.obl, self.done = self.obl + r.obl, self.done + r.done
        for k, v in r.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, int) else v
        self.samples += r.samples[:max(0, 12 - len(self.samples))]
        self.viol += [(k, x) for k, x in r.viol if k not in [y for y, _ in self.viol]]

    def floor(self, what, n, least):
        """a rule that matched fewer places than were confirmed by hand decides nothing"""
        self.cov.setdefault(what, n)
        if n < least:
            self.viol.append(("floor:" + what, "rule anchors lost: %s = %d, expected at least %d" % (what, n, least)))

    def finish(self, here, tier, seed, wall, known):
        rep = os.path.join(here, "evidence", self.pid + ".report.txt")
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        new = [(k, x) for k, x in self.viol if k not in known]
        old = [(k, x) for k, x in self.viol if k in known]
        cov = dict(self.cov)
        cov["obligations"] = self.obl
        cov["discharged"] = self.done
        cov["explanation"] = self.expl
        cov["samples"] = self.samples
        ev = dict(property=self.pid, tier=tier, seed=seed, level=self.level, coverage=cov, assumptions=self.assume, wall_s=round(wall, 2), violations=len(new))
        with open(os.path.join(here, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        with open(rep, "w") as f:
            for k, x in self.viol:
                f.write("%s%s\n    %s\n" % ("(known) " if k in known else "", k, x))
            if not self.viol:
                f.write("no violation: %d obligations discharged\n" % self.done)
        for k, x in old:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, known[k], k))
        for k, x in new[:20]:
            print("  %s: %s" % (k, x))
        print("%s: %d obligations, %d discharged, %d violations (%d known) in %.1fs" % (self.pid, self.obl, self.done, len(self.viol), len(old), wall))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        return 0
