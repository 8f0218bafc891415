"""Abstract interpreter over the dumped MIR.

Domain: value numbers (terms.py).  Calls to functions of the crate (and generic std
combinators whose MIR is in the dump) are analysed in context; control-flow joins merge
states into gated values; loops are summarised by widening every location the body
changes to a loop variable (a `mu` term with its init/next values).  Nothing is executed,
no path is enumerated, no solver is asked: facts are BDD conditions over atoms."""
import re
import json
import alg
import terms as t
from terms import mk, agg, ite, cint, TRUE, FALSE, UNIT, UNINIT

OPT = "std::option::Option"
RES = "std::result::Result"


def Some(x):
    return agg(OPT + "#1", [x])


NONE = agg(OPT + "#0", [])


class AnalysisError(Exception):
    pass


class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.errors = d["errors"]
        self.overflow_checks = d["overflow_checks"]
        self.types = d["types"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.items = d["items"]
        self.by_path = {}
        for f in d["fns"]:
            self.by_path.setdefault(f["path"], []).append(f)
        self.adt = {}
        for i, ty in enumerate(self.types):
            if ty and ty["k"] == "adt":
                self.adt.setdefault(ty["path"], i)
        for f in self.fns.values():
            f["_cfg"] = None

    def fn(self, path):
        l = self.by_path.get(path)
        if not l:
            l = [f for f in self.fns.values() if f["local"] and f["path"].endswith(path)]
        if len(l) != 1:
            raise AnalysisError("anchor function %s: %d matches" % (path, len(l)))
        return l[0]

    def type_named(self, suffix):
        l = [p for p in self.adt if p == suffix or p.endswith("::" + suffix)]
        l = [p for p in l if self.types[self.adt[p]]["local"]] or l
        if len(l) != 1:
            raise AnalysisError("anchor type %s: %d matches" % (suffix, len(l)))
        return self.adt[l[0]]

    def fields(self, tid, variant=0):
        return self.types[tid]["variants"][variant]["f"]

    def field_index(self, tid, name, variant=0):
        for i, f in enumerate(self.fields(tid, variant)):
            if f["n"] == name:
                return i
        raise AnalysisError("anchor field %s of %s missing" % (name, self.types[tid]["path"]))

    def tag(self, tid, variant=0):
        ty = self.types[tid]
        if ty["k"] == "tuple":
            return "tuple"
        if ty["k"] == "closure":
            return "closure:" + ty["path"]
        if ty["k"] == "adt":
            p = ty["path"]
            if p.endswith("::coordinates::XYZ"):
                return "vec3"
            if p.endswith("::coordinates::IJKW"):
                return "quat"
            return p + ("#%d" % variant if ty["adt"] == "enum" else "")
        return ty["s"]

    def nfields(self, tid, variant=0):
        ty = self.types[tid]
        if ty["k"] == "tuple":
            return len(ty["args"])
        if ty["k"] == "closure":
            return len(ty["upvars"])
        if ty["k"] == "adt" and ty["variants"]:
            return len(ty["variants"][variant]["f"])
        return 1

    def fproj(self, tid, name, variant=0):
        i = self.field_index(tid, name, variant)
        return ("f", i, self.nfields(tid, variant), self.tag(tid, variant))


def cfg_of(f):
    if f["_cfg"]:
        return f["_cfg"]
    blocks = f["blocks"]
    succ = {}
    for i, b in enumerate(blocks):
        if b["cleanup"]:
            continue
        tm = b["t"]
        k = tm["k"]
        s = []
        if k in ("goto", "drop", "assert", "call"):
            if tm.get("to") is not None:
                s.append(tm["to"])
        elif k == "switch":
            s = [c[1] for c in tm["cases"]] + [tm["else"]]
        succ[i] = s
    # rpo
    seen, order = set(), []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        n, it = stack[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                stack.append((m, iter(succ[m])))
                break
        else:
            order.append(n)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    # dominators
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while idx[b] > idx[a]:
            b = idom[b]
        return a == b
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
            elif idx[s] <= idx[b]:
                raise AnalysisError("irreducible control flow in " + f["path"])
    c = dict(succ=succ, rpo=rpo, idx=idx, preds=preds, idom=idom, loops=loops, dom=dom)
    f["_cfg"] = c
    return c


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self, pc=None):
        return St(dict(self.mem), self.pc if pc is None else pc)


def merge(sts):
    sts = [s for s in sts if s.pc != 0]
    if not sts:
        return None
    a = sts[0]
    for b in sts[1:]:
        pc = t.bor(a.pc, b.pc)
        c = t.bcons(a.pc, pc)
        mem = {}
        bm = b.mem
        for k, v in a.mem.items():
            w = bm.get(k)
            if w is None:
                continue
            mem[k] = v if v is w else ite(c, v, w)
        # non-local roots missing on one side keep their symbolic initial value
        for k, w in bm.items():
            if k[0] != "L" and k not in a.mem:
                mem[k] = ite(c, init_root(k), w)
        for k, v in a.mem.items():
            if k[0] != "L" and k not in bm:
                mem[k] = ite(c, v, init_root(k))
        a = St(mem, pc)
    return a


def init_root(root):
    if root[0] == "deref":
        return mk("pt", (root[1],))
    if root[0] == "val":
        return root[1]
    if root[0] == "L":
        return UNINIT
    return mk("sym", (), "/".join(str(x) for x in root))


def mkref(root, projs):
    return mk("ref", (), (root, tuple(projs)))


def arr2vec(v):
    import prims
    return prims.arr2vec(v)


class Engine:
    def __init__(self, dump, opaque=(), impure=(), watch=()):
        self.d = dump
        self.opaque = set(opaque)
        self.impure = set(impure)
        self.watch = set(watch)
        self.open_virtual = set(f["path"] for f in ())
        self.log = []
        self.mu = {}            # mu T -> dict(init,next,loop)
        self.loopinfo = {}      # loop key -> dict
        self.widen = {}         # loop key -> {(root, path)}
        self.mupaths = {}       # mu T (map) -> set of written paths or None
        self.loopstack = ()
        self.peel = ()
        self.onret = None         # what a function returned may be given a name: f(engine, function, state, value) -> value
        self.peelmax = 8          # loops over constant ranges up to this long are run round by round
        self.noflag = set()
        self.alias, self.noalias = {}, set()
        self.cur = ()           # inline stack of fn
        self.unknown = {}
        self.stats = dict(blocks=0, calls=0, fns=set())
        self.frames = {}
        self.tk = {}
        self.seq = 0

    def tkind(self, tid):
        k = self.tk.get(tid, 0)
        if k == 0:
            k = self.tk[tid] = alg.typekind(self.d.types, tid)
        return k

    # -------------------------------------------------- memory
    def base(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = init_root(root)
        return v

    def read(self, st, root, projs):
        v = self.base(st, root)
        return self.projpath(v, projs, st, root)

    def projpath(self, v, projs, st, root=None):
        i = 0
        n = len(projs)
        while i < n:
            p = projs[i]
            if p[0] == "boxptr":
                return t.mapite(v, lambda x: x.args[0] if x.op == "boxalias" else mkref(root, projs[:i]))
            v = self.project(v, p, st)
            i += 1
        return v

    def project(self, v, p, st=None):
        if v.op == "ite":
            if st is not None:
                v = t.simp(v, st.pc)
            if v.op == "ite":
                return ite(v.attr, self.project(v.args[0], p, st), self.project(v.args[1], p, st))
        if v is UNINIT:
            return UNINIT
        k = p[0]
        if k == "f":
            if v.op == "agg":
                if v.attr == "array" and p[3] == "vec":
                    v = arr2vec(v)
                if p[1] < len(v.args):
                    return v.args[p[1]]
                return UNINIT
            if v.op == "ref":
                return v        # Unique/NonNull wrappers around a pointer
            if v.op == "sel":
                return self.mksel(v.args[0], v.args[1], v.attr + (p,), st)
            if v.op == "zeros":
                return t.cflt("0.0") if p[3] == "vec3" else mk("fld", (v,), p[1])
            if p[3] == "vec3":
                return self.comp(v, p[1])
            return mk("fld", (v,), p[1])
        if k == "v":
            if v.op == "agg":
                vv = t.variant_of(v)
                if vv is not None and vv != p[1]:
                    return UNINIT
                return v
            if v.op == "sel":
                return self.mksel(v.args[0], v.args[1], v.attr + (p,), st)
            return mk("as", (v,), p[1])
        if k == "dyn":
            if v.op == "agg":
                return v if t.base_tag(v.attr) == p[1] else UNINIT
            if v.op == "sel":
                return self.mksel(v.args[0], v.args[1], v.attr + (p,), st)
            return mk("as", (v,), p[1])
        if k == "idx":
            return self.mksel(v, p[1], (), st)
        if k == "sub":
            return agg("vec", [p[2], mk("shift", (self.project(v, ("f", 1, 2, "vec"), st), p[1]))])
        if k == "ci":
            if v.op == "agg" and v.attr != "vec":
                return v.args[p[1]]
            return self.mksel(self.project(v, ("f", 1, 2, "vec"), st), cint(p[1]), (), st)
        raise AnalysisError("project %r" % (p,))

    def comp(self, v, i):
        """component of a vector: distributes over exact component-wise ops"""
        if v.op == "neg":
            return t.neg(self.comp(v.args[0], i))
        if v.op == "agg" and v.attr == "vec3":
            return v.args[i]
        return mk("fld", (v,), i)

    def keyeq(self, a, b):
        if a is b:
            return 1
        if a.op == "ite":
            return t.bite(a.attr, self.keyeq(a.args[0], b), self.keyeq(a.args[1], b))
        if b.op == "ite":
            return t.bite(b.attr, self.keyeq(a, b.args[0]), self.keyeq(a, b.args[1]))
        if a.op in ("i", "lin") or b.op in ("i", "lin"):
            return t.tobdd(t.ieq(a, b))
        if (a.op == "newh") != (b.op == "newh") and (a.op == "sym" or b.op == "sym"):
            return 0
        if a.op == "newh" and b.op == "newh":
            return 0
        if a.op in ("aitem", "sitem") and a.op == b.op and a.args[0] is b.args[0]:
            return t.tobdd(t.ieq(a.args[1], b.args[1]))        # different members of one collection
        # extract both Some payloads etc. structurally
        if a.op == "agg" and b.op == "agg":
            if a.attr != b.attr and not ("const" in (a.attr, b.attr) and len(a.args) == len(b.args)):
                return 0
            r = 1
            for x, y in zip(a.args, b.args):
                r = t.band(r, self.keyeq(x, y))
            return r
        if (a.op == "agg") != (b.op == "agg") and t.base_tag((a if a.op == "agg" else b).attr) == OPT:
            # Some(x) == opaque option
            if b.op == "agg":
                a, b = b, a
            isome = t.bvar(mk("is", (b,), 1))
            if t.variant_of(a) == 0:
                return t.bnot(isome)
            return t.band(isome, self.keyeq(a.args[0], self.project(self.project(b, ("v", 1)), ("f", 0, 1, OPT + "#1"))))
        if b.id < a.id:
            a, b = b, a
        return t.bvar(mk("eq", (a, b)))

    @staticmethod
    def pkey(p):
        return p[:2]

    def prel(self, p, q):
        """relation of written path p to read path q: 'dis','pre' (p prefix of q or equal),'sub' (q strict prefix of p)"""
        for x, y in zip(p, q):
            if x[0] == "idx" and y[0] == "idx":
                if x[1] is not y[1]:
                    return "may"
                continue
            if x[:2] != y[:2]:
                return "dis"
        return "pre" if len(p) <= len(q) else "sub"

    def mksel(self, m, k, path, st=None):
        pc = st.pc if st is not None else 1
        while True:
            if m.op == "ite":
                m = t.simp(m, pc)
            if m.op == "ite":
                a = self.mksel(m.args[0], k, path, st)
                b = self.mksel(m.args[1], k, path, st)
                return ite(m.attr, a, b)
            if m.op == "store":
                mm_, kk, val = m.args
                rel = self.prel(m.attr, path)
                if rel == "dis":
                    m = mm_
                    continue
                c = self.keyeq(k, kk)
                if c not in (0, 1):
                    c2 = t.bcons(c, pc)
                    if c2 in (0, 1):
                        c = c2
                if c == 0:
                    m = mm_
                    continue
                if rel in ("sub", "may"):
                    return mk("sel", (m, k), path)
                hit = self.projpath(val, path[len(m.attr):], st)
                if c == 1:
                    return hit
                if kk.op == "i" and k.op != "i":
                    return mk("sel", (m, k), path)
                return ite(c, hit, self.mksel(mm_, k, path, st))
            if m.op == "mu" and m in self.mupaths:
                ws = self.mupaths[m]
                if ws is not None and all(self.prel(w, path) == "dis" for w in ws):
                    m = self.mu[m]["init"]
                    continue
            if m.op == "shift":
                k = t.iadd(k, m.args[1])
                m = m.args[0]
                continue
            if m.op == "constmap":
                return self.projpath(m.args[0], path, st)
            return mk("sel", (m, k), path)

    def upd(self, v, projs, val, st):
        if not projs:
            return val
        p = projs[0]
        if v.op == "ite" and p[0] != "idx":
            v2 = t.simp(v, st.pc)
            if v2.op == "ite":
                return ite(v.attr, self.upd(v.args[0], projs, val, st), self.upd(v.args[1], projs, val, st))
            v = v2
        k = p[0]
        if k == "f":
            n, tag = p[2], p[3]
            if v.op == "agg" and v.attr == "array" and tag == "vec":
                i = projs[1][1] if len(projs) > 1 and projs[1][0] == "idx" else None
                if i is not None and i.op == "i" and 0 <= int(i.attr) < len(v.args):
                    return self.upd(v, (("ci", int(i.attr)),) + tuple(projs[2:]), val, st)
                v = arr2vec(v)
            if v.op == "agg":
                args = list(v.args)
                if len(args) < n:
                    args += [UNINIT] * (n - len(args))
                tag = v.attr
            else:
                args = [self.project(v, ("f", i, n, tag), st) for i in range(n)]
            args[p[1]] = self.upd(args[p[1]], projs[1:], val, st)
            return agg(tag, args)
        if k in ("v", "dyn"):
            x = self.project(v, p, st)
            if x is UNINIT and v is not UNINIT:
                return v
            return self.upd(x, projs[1:], val, st)
        if k == "idx":
            rest = tuple(projs[1:])
            old = self.mksel(v, p[1], rest, st)
            if old is val:
                return v
            if self.structlike(val) and len(val.args) > 1:
                # a struct rebuilt around some of its old fields: only the others are written
                fs = [("f", i, len(val.args), val.attr) for i in range(len(val.args))]
                keep = [self.mksel(v, p[1], rest + (q,), st) is x for q, x in zip(fs, val.args)]
                if any(keep) and not all(keep):
                    for q, x, kept in zip(fs, val.args, keep):
                        if not kept:
                            v = self.upd(v, (p,) + rest + (q,), x, st)
                    return v
            if v.op == "store" and v.args[1] is p[1] and v.attr == rest:
                v = v.args[0]
            return mk("store", (v, p[1], val), rest)
        if k == "ci":
            if v.op != "agg" or v.attr == "vec":
                return self.upd(v, (("f", 1, 2, "vec"), ("idx", cint(p[1]))) + tuple(projs[1:]), val, st)
            args = list(v.args)
            while len(args) <= p[1]:
                args.append(UNINIT)
            args[p[1]] = self.upd(args[p[1]], projs[1:], val, st)
            return agg("array", args)
        raise AnalysisError("upd %r" % (p,))

    def write(self, st, root, projs, val, site=None):
        for i, p in enumerate(projs):
            if p[0] == "boxptr":
                projs = projs[:i]
                break
        b = self.base(st, root)
        if root[0] != "L":
            old = self.projpath(b, projs, st, root)
            if old is not val:
                self.emit("write", st.pc, site, root=root, projs=projs, new=val, old=old)
        st.mem[root] = self.upd(b, projs, val, st)

    def emit(self, kind, cond, site, **kw):
        self.seq += 1
        kw.update(kind=kind, cond=cond, site=site, loops=self.loopstack, seq=self.seq, stack=self.cur)
        self.log.append(kw)
        return kw

    # write through a ref term that may be an ite of refs
    def wref(self, st, ref, projs, val, site):
        for c, r in t.leaves(ref):
            cc = t.band(st.pc, c)
            if cc == 0:
                continue
            if r.op == "ref":
                root, pr = r.attr
            else:
                root, pr = ("deref", r), ()
            pr = pr + tuple(projs)
            if cc == st.pc:
                self.write(st, root, pr, val, site)
            else:
                old = self.read(st, root, pr)
                s2 = St(st.mem, cc)
                self.write(s2, root, pr, ite(t.bcons(c, st.pc), val, old), site)

    def rref(self, st, ref, projs=()):
        ref = t.simp(ref, st.pc)
        if ref.op == "ite":
            return ite(ref.attr, self.rref(st, ref.args[0], projs), self.rref(st, ref.args[1], projs))
        if ref.op == "ref":
            return self.read(st, ref.attr[0], ref.attr[1] + tuple(projs))
        if ref is UNINIT:
            return UNINIT
        return self.read(st, ("deref", ref), tuple(projs))

    def extref(self, ref, projs):
        return t.mapite(ref, lambda r: mkref(r.attr[0], r.attr[1] + tuple(projs)) if r.op == "ref" else (UNINIT if r is UNINIT else mkref(("deref", r), tuple(projs))))

    def val(self, st, x):
        """value of an operand that may be a reference"""
        x = t.simp(x, st.pc)
        n = 0
        while n < 4:
            n += 1
            if x.op == "ref":
                x = t.simp(self.rref(st, x), st.pc)
            elif x.op == "ite" and any(l.op == "ref" for _, l in t.leaves(x)):
                x = ite(x.attr, self.val(st, x.args[0]), self.val(st, x.args[1]))
            else:
                break
        return x

    # -------------------------------------------------- places of MIR
    def place(self, fr, st, p):
        """-> ref term (possibly ite of refs), type id"""
        f = fr["fn"]
        local, projs = p
        tid = f["locals"][local][0]
        ref = mkref(("L", fr["id"], local), ())
        types = self.d.types
        variant = 0
        for e in projs:
            ty = types[tid]
            k = e[0]
            if k == "*":
                if ty["k"] in ("ref", "ptr"):
                    ref = t.simp(self.rref(st, ref), st.pc)
                    ref = t.mapite(ref, lambda r: r if r.op in ("ref",) or r is UNINIT else mkref(("deref", r), ()))
                    tid = ty["to"]
                elif ty["k"] == "adt" and ty["path"].endswith("Box"):
                    v = self.rref(st, ref)
                    if any(x.op == "boxalias" for _, x in t.leaves(v)):
                        ref = t.mapite(v, lambda x: x.args[0] if x.op == "boxalias" else x)
                    tid = ty["args"][0]
                else:
                    raise AnalysisError("deref of " + ty["s"])
                variant = 0
            elif k == "f":
                if ty["k"] == "adt" and (ty["path"].endswith("boxed::Box")):
                    ref = self.extref(ref, (("boxptr",),))
                elif ty["k"] == "adt" and (ty["path"].endswith("Unique") or ty["path"].endswith("NonNull")):
                    pass
                elif ty["k"] == "adt" and ty["path"] in ("nalgebra::Point", "nalgebra::Translation", "nalgebra::Unit", "nalgebra::Rotation", "std::cell::RefCell"):
                    pass
                elif ty["k"] == "adt" and ty["path"].split("::")[-1] in ("MaybeUninit", "ManuallyDrop", "MaybeDangling") or ty["k"] == "adt" and ty["adt"] == "union":
                    pass
                else:
                    n = self.d.nfields(tid, variant)
                    ref = self.extref(ref, (("f", e[1], n, self.d.tag(tid, variant)),))
                tid = e[2]
                variant = 0
            elif k == "v":
                variant = e[1]
                ref = self.extref(ref, (("v", e[1]),))
            elif k == "i":
                key = self.read(st, ("L", fr["id"], e[1]), ())
                ref = self.index_ref(ref, key)
                tid = types[tid].get("to", tid)
            elif k == "ci":
                ref = self.extref(ref, (("ci", e[1]),)) if types[tid]["k"] == "array" else self.index_ref(ref, cint(e[1]))
                tid = types[tid].get("to", tid)
            else:
                raise AnalysisError("projection %r in %s" % (e, f["path"]))
        return ref, tid, variant

    def index_ref(self, ref, key):
        def one(r):
            if r.op != "ref":
                return UNINIT if r is UNINIT else mkref(("deref", r), (("f", 1, 2, "vec"), ("idx", key)))
            root, pr = r.attr
            k = key
            while pr and pr[-1][0] == "sub":
                k = t.iadd(k, pr[-1][1])
                pr = pr[:-1]
            return mkref(root, pr + (("f", 1, 2, "vec"), ("idx", k)))
        return t.mapite(ref, one)

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            ref, tid, var = self.place(fr, st, o["p"])
            v = t.simp(self.rref(st, ref), st.pc)
            k = self.tkind(tid)
            if k and v.op != "ref":
                alg.setkind(v, k)
            return v
        if k == "c":
            return self.const(o["v"], o)
        if k == "fn":
            return mk("fnitem", (), (o["fn"].get("res") or o["fn"]["path"], o["fn"].get("id")))
        if k == "promoted":
            return self.promoted(fr, o)
        if k == "rt":
            return mk("batom", (), "runtime_check")
        raise AnalysisError("operand " + k)

    def const(self, v, o):
        if v is None:
            return mk("const", (), (o.get("name") or "?%s" % o["t"]) + ("=" + o["text"] if o.get("text") else ""))
        k = v["k"]
        if k == "f":
            s = {"inf": "inf", "-inf": "-inf", "NaN": "nan"}.get(v["v"], v["v"])
            c = t.cflt(s)
            return c
        if k == "i":
            return cint(v["v"])
        if k == "b":
            return TRUE if v["v"] else FALSE
        if k == "zst":
            ty = self.d.types[o["t"]]
            if ty["k"] == "tuple":
                return UNIT
            return agg(self.d.tag(o["t"]), [])
        if k == "adt":
            return agg(self.d.tag(v["t"], v["var"]), [self.const(x, dict(o, t=None)) if x["k"] != "zst" else UNIT for x in v["v"]])
        if k == "str":
            return mk("const", (), "str")
        if k == "c":
            return cint(v["v"])
        if k == "agg":
            return agg("const", [self.const(x, o) for x in v["v"]])
        if k == "ref":
            return mkref(("val", self.const(v["v"], o)), ())
        return mk("const", (), "?")

    def promoted(self, fr, o):
        f = self.d.fns[o["owner"]]
        body = f["promoted"][o["idx"]]
        key = ("P", f["id"], o["idx"])
        pf = dict(body)
        pf.update(path=f["path"] + "::promoted%d" % o["idx"], id=key, local=f["local"], _cfg=None, kind="promoted", span="", full=f["full"])
        st = St({}, 1)
        nfr = dict(fn=pf, id=mk("frame", (), key).id)
        outs = self.region(nfr, set(cfg_of(pf)["rpo"]), 0, st, None)
        s = merge(outs.get("ret", []))
        r = s.mem[("L", nfr["id"], 0)]

        def fix(v):
            if v.op == "ref":
                return mkref(("val", fix(self.rref(s, v))), ())
            if v.op == "agg":
                return agg(v.attr, [fix(a) for a in v.args])
            return v
        return fix(r)

    # -------------------------------------------------- rvalues
    def discr(self, v, tid, st):
        v = t.simp(v, st.pc)
        n = len(self.d.types[tid].get("variants") or []) or 2
        ty = self.d.types[tid]

        def dv(k):
            vs = ty.get("variants") or []
            return int(vs[k]["d"]) if k < len(vs) else k

        def one(x):
            if x is UNINIT:
                return UNINIT
            vv = t.variant_of(x) if x.op == "agg" else None
            if vv is not None:
                return cint(dv(vv))
            if x.op == "sel":
                pass
            r = cint(dv(0))
            for k in range(n - 1, 0, -1):
                r = ite(t.bvar(mk("is", (x,), k)), cint(dv(k)), r)
            return r
        return t.mapite(v, one)

    def rvalue(self, fr, st, rv, dst_tid):
        k = rv["k"]
        if k == "use":
            if rv["o"]["k"] == "copy":
                ref, tid, var = self.place(fr, st, rv["o"]["p"])
                ty = self.d.types[tid]
                if ty["k"] == "adt" and ty["path"].endswith("boxed::Box"):
                    return t.mapite(ref, lambda r: mk("boxalias", (r,)))       # copied only to dereference it
            return self.operand(fr, st, rv["o"])
        if k == "ref":
            ref, tid, var = self.place(fr, st, rv["p"])
            # reborrow of an opaque pointer's target keeps identity
            return t.mapite(ref, lambda r: r.attr[0][1] if r.op == "ref" and r.attr[0][0] == "deref" and not r.attr[1] else r)
        if k == "bin":
            a = self.operand(fr, st, rv["l"])
            b = self.operand(fr, st, rv["r"])
            return self.binop(fr, rv["op"], a, b, self.opty(fr, rv["l"]), st)
        if k == "un":
            a = self.operand(fr, st, rv["o"])
            if rv["op"] == "Not":
                ty = self.d.types[self.opty(fr, rv["o"])]
                if ty["k"] == "bool":
                    return t.frombdd(t.bnot(t.tobdd(a)))
                return mk("inot", (a,))
            if rv["op"] == "Neg":
                ty = self.d.types[self.opty(fr, rv["o"])]
                if ty["k"] == "float":
                    return t.neg(a)
                return t.imul(cint(-1), a)
            if rv["op"] == "PtrMetadata":
                return self.length(st, a)
            return mk("un:" + rv["op"], (a,))
        if k == "discr":
            ref, tid, var = self.place(fr, st, rv["p"])
            return self.discr(self.rref(st, ref), tid, st)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv["ops"]]
            if rv["a"] == "adt":
                ty = self.d.types[rv["t"]]
                tag = rv["path"] + ("#%d" % rv["v"] if ty["adt"] == "enum" else "")
                if ty["path"].split("::")[-1] in ("MaybeUninit", "ManuallyDrop"):
                    return ops[0] if ops else UNINIT
                return agg(tag, ops)
            if rv["a"] == "tuple":
                return agg("tuple", ops) if ops else UNIT
            if rv["a"] == "closure":
                return agg("closure:%s:%s" % (rv["path"], rv["id"]), ops)
            if rv["a"] == "array":
                return agg("array", ops)
            return agg("other", ops)
        if k == "cast":
            a = self.operand(fr, st, rv["o"])
            ck = rv["ck"]
            if ck.startswith("IntToFloat"):
                if a.op == "i":
                    return t.cflt(str(a.attr))
                return mk("i2f", (a,))
            if ck.startswith("FloatToInt"):
                return mk("f2i", (a,))
            if ck.startswith("FloatToFloat") or ck.startswith("PointerCoercion") or ck.startswith("PtrToPtr") or "Transmute" in ck:
                return a
            if ck.startswith("IntToInt"):
                st_ty = self.d.types[self.opty(fr, rv["o"])]
                if a.op == "ite" or t.is_bool(a):
                    return ite(t.tobdd(a), cint(1), cint(0)) if st_ty["k"] == "bool" else a
                return a
            return mk("cast", (a,), ck)
        if k == "repeat":
            a = self.operand(fr, st, rv["o"])
            n = rv["n"]
            if n is not None and int(n) <= 64:
                return agg("array", [a] * int(n))
            return mk("repeat", (a,))
        return mk("other", (), "rv:%s" % k)

    def opty(self, fr, o):
        if o["k"] in ("copy", "move"):
            local, projs = o["p"]
            tid = fr["fn"]["locals"][local][0]
            for e in projs:
                ty = self.d.types[tid]
                if e[0] == "*":
                    tid = ty["to"] if "to" in ty else ty["args"][0]
                elif e[0] == "f":
                    tid = e[2]
                elif e[0] in ("i", "ci"):
                    tid = ty.get("to", tid)
            return tid
        return o["t"]

    def binop(self, fr, op, a, b, tid, st):
        ty = self.d.types[tid]
        if ty["k"] == "float":
            f = {"Add": t.add, "Sub": t.sub, "Mul": t.mul, "Div": t.div}.get(op)
            if f:
                return f(a, b)
            if op == "Lt":
                return self.fcmp(t.flt, a, b)
            if op == "Gt":
                return self.fcmp(t.flt, b, a)
            if op == "Le":
                return self.fcmp(t.fle, a, b)
            if op == "Ge":
                return self.fcmp(t.fle, b, a)
            if op == "Eq":
                return self.fcmp(t.feq, a, b)
            if op == "Ne":
                return t.frombdd(t.bnot(t.tobdd(self.fcmp(t.feq, a, b))))
            return mk("fop:" + op, (a, b))
        if ty["k"] == "bool":
            x, y = t.tobdd(a), t.tobdd(b)
            r = {"BitAnd": lambda: t.band(x, y), "BitOr": lambda: t.bor(x, y), "BitXor": lambda: t.bite(x, t.bnot(y), y),
                 "Eq": lambda: t.bite(x, y, t.bnot(y)), "Ne": lambda: t.bite(x, t.bnot(y), y),
                 "Lt": lambda: t.band(t.bnot(x), y), "Gt": lambda: t.band(x, t.bnot(y)), "Le": lambda: t.bor(t.bnot(x), y), "Ge": lambda: t.bor(x, t.bnot(y))}[op]()
            return t.frombdd(r)
        if a.op in ("ref", "const", "pt") or b.op in ("ref",):
            return mk("batom", (a, b), "ptr" + op)
        if ty["k"] == "int":
            for x in (a, b):
                for _, y in t.leaves(x):
                    if y is not UNINIT and y.op != "i":
                        t.SIGNED.update(t.lin(y)[1])

        def two(f):
            la, lb = t.leaves(a), t.leaves(b)
            if len(la) * len(lb) > 64:
                return f(a, b)
            r = None
            for ca, x in la:
                for cb, y in lb:
                    c = t.band(ca, cb)
                    if c == 0:
                        continue
                    v = f(x, y) if x is not UNINIT and y is not UNINIT else UNINIT
                    r = v if r is None else ite(c, v, r)
            return r
        if op in ("Eq", "Ne"):
            r = two(t.ieq)
            return r if op == "Eq" else t.frombdd(t.bnot(t.tobdd(r)))
        if op == "Lt":
            return two(t.ilt)
        if op == "Gt":
            return two(lambda x, y: t.ilt(y, x))
        if op == "Le":
            return t.frombdd(t.bnot(t.tobdd(two(lambda x, y: t.ilt(y, x)))))
        if op == "Ge":
            return t.frombdd(t.bnot(t.tobdd(two(t.ilt))))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        fn = {"Add": t.iadd, "Sub": lambda x, y: t.iadd(x, y, -1), "Mul": t.imul}.get(base)
        if fn is None:
            r = two(lambda x, y: t.iop(op, x, y))
        else:
            r = two(fn)
        if op.endswith("WithOverflow"):
            ov = FALSE
            if base == "Sub" and ty["k"] != "int":
                ov = two(lambda x, y: t.ilt(x, y))
            else:
                ov = mk("batom", (a, b), "ovf" + base)
            return agg("tuple", [r, ov])
        return r

    def fcmp(self, f, a, b):
        la, lb = t.leaves(a), t.leaves(b)
        if len(la) * len(lb) > 36:
            return f(a, b)
        r = None
        for ca, x in la:
            for cb, y in lb:
                c = t.band(ca, cb)
                if c == 0:
                    continue
                v = f(x, y)
                r = v if r is None else ite(c, v, r)
        return r

    def length(self, st, x):
        v = self.val(st, x)
        return self.veclen(v, st)

    def veclen(self, v, st):
        return self.project(v, ("f", 0, 2, "vec"), st)

    # -------------------------------------------------- control
    def call_fn(self, fid, args, st, fkey, site):
        """inline a dumped function; returns (state, value) or (None, None) if it diverges"""
        f = self.d.fns[fid]
        if fid in [x[0] for x in self.cur]:
            if sum(1 for x in self.cur if x[0] == fid) > 1:
                self.emit("recursion", st.pc, site, name=f["path"])
                return st, mk("rec", tuple(args), f["path"])
        self.stats["fns"].add(fid)
        if f["kind"] == "closure" and f["argc"] != len(args) and len(args) == 2:
            tup = args[1]
            args = [args[0]] + [self.project(tup, ("f", i, f["argc"] - 1, "tuple"), st) for i in range(f["argc"] - 1)]
        fr = dict(fn=f, id=mk("frame", (), fkey).id)
        for i in range(f["argc"]):
            st.mem[("L", fr["id"], i + 1)] = args[i]
        if f["argc"] != len(args):
            raise AnalysisError("arity %s %d!=%d" % (f["full"], f["argc"], len(args)))
        # closures called by value whose body takes a reference
        if f["kind"] == "closure":
            ty = self.d.types[f["locals"][1][0]]
            if ty["k"] == "ref" and args[0].op == "agg":
                st.mem[("L", fr["id"], "self")] = args[0]
                st.mem[("L", fr["id"], 1)] = mkref(("L", fr["id"], "self"), ())
            elif ty["k"] != "ref" and args[0].op != "agg":
                st.mem[("L", fr["id"], 1)] = self.val(st, args[0])
        old = self.cur
        self.cur = old + ((fid, site),)
        cfg = cfg_of(f)
        outs = self.region(fr, set(cfg["rpo"]), 0, st, None)
        self.cur = old
        s = merge(outs.get("ret", []))
        if s is None:
            return None, None
        r = s.mem.get(("L", fr["id"], 0), UNIT)
        fid_ = fr["id"]
        s.mem = {k: v for k, v in s.mem.items() if not (k[0] == "L" and k[1] == fid_)}
        r = t.simp(r, s.pc)
        if self.onret:
            r = self.onret(self, f, s, r)
        return s, r

    def region(self, fr, blocks, entry, st, header):
        """execute an acyclic-after-collapsing region; returns {target: [states]}"""
        cfg = cfg_of(fr["fn"])
        pending = {entry: [st]}
        outs = {}
        for bb in cfg["rpo"]:
            if bb not in blocks or bb not in pending:
                continue
            s = merge(pending.pop(bb))
            if s is None:
                continue
            if bb in cfg["loops"] and bb != header:
                edges = self.loop(fr, bb, s)
            else:
                edges = self.block(fr, bb, s.copy())
            for tgt, ss in edges.items():
                if tgt == "ret" or tgt == header or tgt not in blocks:
                    outs.setdefault(tgt, []).extend(ss)
                else:
                    pending.setdefault(tgt, []).extend(ss)
        return outs

    def diffs(self, root, a, b, path, out):
        if a is b:
            return
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            # a conditional struct: compare arm by arm, so that only the fields that differ are widened
            if y.op == "ite" and any(self.structlike(z) for _, z in t.leaves(y)):
                for _, z in t.leaves(y):
                    self.diffs(root, *((z, x) if sw else (x, z)), path, out)
                return
        if (a.op == "agg") != (b.op == "agg"):
            # an opaque struct value against its rebuilt form: compare field by field
            x, y = (a, b) if b.op == "agg" else (b, a)
            if x.op in ("sym", "fld", "sel", "as", "mu", "pt") and self.structlike(y):
                ex = [self.project(x, ("f", i, len(y.args), y.attr)) for i in range(len(y.args))]
                for i, (p, q) in enumerate(zip(ex, y.args)):
                    self.diffs(root, *((p, q) if b is y else (q, p)), path + (("f", i, len(y.args), y.attr),), out)
                return
        if a.op == "agg" and b.op == "agg" and a.attr == b.attr and len(a.args) == len(b.args) and a.attr not in ("vec3", "quat", "array"):
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                self.diffs(root, x, y, path + (("f", i, len(a.args), a.attr),), out)
            return
        out.add((root, path))

    def structlike(self, y):
        return y.op == "agg" and bool(y.args) and "#" not in y.attr and y.attr not in ("vec3", "quat", "array", "tuple", "guard") and not y.attr.startswith(("closure", "iter"))

    def widen_state(self, st, W, key):
        s = st.copy()
        mus = {}
        for root, path in sorted(W, key=lambda x: (str(x[0]), len(x[1]), str([q[:2] for q in x[1]]))):
            if root not in s.mem:
                if root[0] == "L":
                    continue
                s.mem[root] = init_root(root)
            cur = self.projpath(s.mem[root], path, s)
            al = self.alias.get((key, root, path))
            if al is not None and al[0] in mus and t.iadd(cur, self.mu[mus[al[0]]]["init"], -1) is cint(al[1]):
                # a second counter that keeps its distance from the first
                s.mem[root] = self.upd(s.mem[root], path, t.iadd(mus[al[0]], cint(al[1])), St(s.mem, s.pc))
                continue
            m = mk("mu", (), (key, self.rkey(root), tuple((q[:2] if q[0] != "idx" else q) for q in path)))
            self.mu.setdefault(m, {})["init"] = cur
            self.mu[m]["loop"] = key
            mus[(root, path)] = m
            s.mem[root] = self.upd(s.mem[root], path, m, St(s.mem, s.pc))
        return s, mus

    def rkey(self, root):
        return root

    def loop(self, fr, h, st):
        cfg = cfg_of(fr["fn"])
        body = cfg["loops"][h]
        run = lambda s: self.region(fr, body, h, s, h)
        outs = self.peeled(fr["id"], st, run, h)
        if outs is not None:
            return outs
        key = ("loop", fr["id"], h) + ((self.peel,) if self.peel else ())
        site = self.site(fr, h)
        info = self.loopinfo.setdefault(key, dict(fn=fr["fn"]["path"], site=site))
        return self.fixloop(key, info, st, run, h)

    def short(self, st, fid):
        """local iterators of a frame over a constant, short range: {(root, path): (from, to)}"""
        out = {}

        def go(v, root, path, n):
            if v.op != "agg" or n > 6:
                return
            if v.attr.startswith(("iter:slice", "iter:vec", "iter:comps", "iter:win", "iter:opt")) or v.attr == "std::ops::Range":
                a, b = v.args[-2:]
                if "ite" in (a.op, b.op):
                    la, lb = ([x for _, x in t.leaves(y)] for y in (a, b))
                    if len(la) * len(lb) < 10 and all(x.op == "i" for x in la + lb):
                        a, b = min(la, key=lambda x: x.attr), max(lb, key=lambda x: x.attr)
                if a.op == "i" and b.op == "i":
                    if b.attr - a.attr <= self.peelmax:
                        out[(root, path)] = (a.attr, b.attr)
                return
            for i, x in enumerate(v.args):
                go(x, root, path + (i,), n + 1)
        for root, v in st.mem.items():
            if root[0] == "L" and root[1] == fid:
                go(v, root, (), 0)
        return out

    def peeled(self, fid, st, run, h):
        """a loop over a short constant range, run round by round; None if it is not one"""
        its = self.short(st, fid)
        if not its:
            return None
        mark, known, old = len(self.log), set(self.loopinfo), self.peel
        outs, s = {}, st.copy()
        for n in range(10):
            self.peel = old + ((fid, h, n),)
            o = run(s)
            back = merge(o.pop(h, []))
            for k, v in o.items():
                outs.setdefault(k, []).extend(v)
            if back is None:
                self.peel = old
                return outs
            now = self.short(back, fid)
            if not any(k in now and now[k][1] - now[k][0] < w[1] - w[0] for k, w in its.items()):
                break
            its, s = now, back
        self.peel = old
        del self.log[mark:]
        for k in set(self.loopinfo) - known:
            del self.loopinfo[k]
        return None

    def lockstep(self, key, W, mus, back):
        """counters that advance together are one counter and a distance; True when something changed"""
        cnt = {}
        for rp, m in mus.items():
            i0, nx = self.mu[m].get("init"), self.mu[m].get("next")
            if i0 is not None and i0.op == "i" and nx is not None and t.simp(nx, back.pc) is t.iadd(m, cint(1)):
                cnt[rp] = i0.attr
        ch = False
        for (k, root, path), (rep, d) in list(self.alias.items()):
            if k != key:
                continue
            w = back.mem.get(root)
            x = t.simp(self.projpath(w, path, back), back.pc) if w is not None else None
            if rep not in cnt or x is not t.iadd(mus[rep], cint(d + 1)):
                del self.alias[(k, root, path)]
                self.noalias.add((k, root, path))
                ch = True
        if ch or len(cnt) < 2:
            return ch
        order = sorted(cnt, key=lambda x: (str(x[0]), len(x[1]), str([q[:2] for q in x[1]])))
        rep = order[0]
        for root, path in order[1:]:
            if (key, root, path) not in self.noalias and not any(a[0] == (root, path) for a in self.alias.values()):
                self.alias[(key, root, path)] = (rep, cnt[(root, path)] - cnt[rep])
                ch = True
        return ch

    def flagged(self, key, head, back, run, h, outs):
        """a flag that ends the loop at its next test ends it at once (the rest of `back` is returned)"""
        for root in list(back.mem):
            v, w = head.mem.get(root), back.mem[root]
            if v not in (TRUE, FALSE) or w is v or root[0] != "L" or not t.is_bool(w) or (key, root) in self.noflag:
                continue
            q = t.tobdd(w)
            if v is TRUE:
                q = t.bnot(q)
            if t.band(back.pc, q) == 0:
                continue
            s = back.copy(t.band(back.pc, q))
            s.mem[root] = FALSE if v is TRUE else TRUE
            mark, known, old = len(self.log), set(self.loopinfo), self.peel
            self.peel = old + (("flag", key, root),)
            o = run(s)
            self.peel = old
            if o.get(h):
                self.noflag.add((key, root))
                del self.log[mark:]
                for k in set(self.loopinfo) - known:
                    del self.loopinfo[k]
                continue
            for k, x in o.items():
                outs.setdefault(k, []).extend(x)
            rest = t.band(back.pc, t.bnot(q))
            if rest == 0:
                return None
            back = back.copy(rest)
            back.mem[root] = v
        return back

    def fixloop(self, key, info, st, run, h):
        W = self.widen.setdefault(key, set())
        mark = len(self.log)
        olds = self.loopstack
        for it in range(40):
            del self.log[mark:]
            s, mus = self.widen_state(st, W, key)
            self.loopstack = olds + (key,)
            head = s.copy()
            outs = run(s)
            back = merge(outs.pop(h, []))
            if back is not None:
                back = self.flagged(key, head, back, run, h, outs)
            self.loopstack = olds
            if back is None:
                break
            new = set()
            for root, v in head.mem.items():
                w = back.mem.get(root)
                if w is None or w is v:
                    continue
                dd = set()
                self.diffs(root, v, w, (), dd)
                for r, p in dd:
                    if not any((r, p[:n]) in mus or (key, r, p[:n]) in self.alias for n in range(len(p) + 1)):
                        new.add((r, p))
            for root, w in back.mem.items():
                if root not in head.mem and root[0] not in ("L", "val"):
                    dd = set()
                    self.diffs(root, init_root(root), w, (), dd)
                    new |= dd
            # record next values
            grew = False
            for (root, path), m in mus.items():
                w = back.mem.get(root)
                if w is None:
                    continue
                nv = self.projpath(w, path, back)
                self.mu[m]["next"] = nv
                ws = self.written(nv, m)
                if m not in self.mupaths:
                    self.mupaths[m] = ws
                    if ws is not None and not ws >= set():
                        grew = True
                else:
                    o = self.mupaths[m]
                    if o is not None:
                        n2 = None if ws is None else (o | ws)
                        if n2 != o:
                            self.mupaths[m] = n2
                            grew = True
            if not new and not grew:
                if not self.lockstep(key, W, mus, back):
                    break
            if new:
                # drop sub-paths covered by shorter ones
                W |= new
                for (r, p) in list(W):
                    if any(r == r2 and p2 != p and p[:len(p2)] == p2 for r2, p2 in W):
                        W.discard((r, p))
                # first guess of written map paths from this pass
                for (r, p) in new:
                    m = mk("mu", (), (key, self.rkey(r), tuple((q[:2] if q[0] != "idx" else q) for q in p)))
                    self.mu.setdefault(m, {})["init"] = self.projpath(self.base(head, r), p, head)
                    self.mu[m]["loop"] = key
                    w = back.mem.get(r)
                    nv = self.projpath(w, p, back)
                    ws = self.written(nv, self.projpath(self.base(head, r), p, head))
                    if ws is None and any(l.op == "store" for _, l in t.leaves(nv)):
                        ws = set()          # grows to the fixpoint below
                    self.mupaths[m] = ws
        else:
            raise AnalysisError("loop did not stabilise: %s" % (info["site"],))
        info["mus"] = {m: self.mu[m] for m in mus.values()}
        info["back"] = back.pc if back is not None else 0
        info["entry"] = st.pc
        info["head"] = head
        info["backst"] = back
        info["exits"] = [x.copy() for k, v in outs.items() for x in v]
        info["entryst"] = st
        info["stack"] = olds
        return outs

    def written(self, v, base):
        """set of store paths between v and base, None if not a pure store chain"""
        out = set()
        seen = set()

        def go(x):
            if x is base or x in seen:
                return True
            seen.add(x)
            if x.op == "store":
                out.add(x.attr)
                return go(x.args[0])
            if x.op == "ite":
                return go(x.args[0]) and go(x.args[1])
            if x.op == "mu" and self.mupaths.get(x) is not None and "init" in self.mu[x]:
                out.update(self.mupaths[x])
                return go(self.mu[x]["init"])
            return False
        return out if go(v) else None

    def site(self, fr, bb):
        return (fr["fn"]["path"], fr["fn"]["blocks"][bb]["t"].get("sp", ""))

    def block(self, fr, bb, st):
        self.stats["blocks"] += 1
        f = fr["fn"]
        b = f["blocks"][bb]
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], None)
                p = s[1]
                if not p[1]:
                    st.mem[("L", fr["id"], p[0])] = v
                else:
                    ref, tid, var = self.place(fr, st, p)
                    self.wref(st, ref, (), v, (f["path"], s[3]))
            elif s[0] == "dead":
                st.mem.pop(("L", fr["id"], s[1]), None)
            elif s[0] == "sd":
                pass
        tm = b["t"]
        k = tm["k"]
        site = (f["path"], tm.get("sp", ""))
        if k == "goto" or k == "drop":
            return {tm["to"]: [st]}
        if k == "return":
            return {"ret": [st]}
        if k in ("unreachable", "unwind", "other"):
            return {}
        if k == "assert":
            c = t.tobdd(self.operand(fr, st, tm["c"]))
            if not tm["exp"]:
                c = t.bnot(c)
            if tm["msg"] == "other":
                return {tm["to"]: [st]}
            bad = t.band(st.pc, t.bnot(c))
            if bad != 0:
                ops = [self.operand(fr, st, o) for o in tm["ops"]]
                self.emit("panic", bad, site, why=tm["msg"], ops=ops)
            st.pc = t.band(st.pc, c)
            return {tm["to"]: [st]} if st.pc else {}
        if k == "switch":
            v = t.simp(self.operand(fr, st, tm["o"]), st.pc)
            ty = self.d.types[tm["t"]]
            out = {}
            rest = st.pc
            for val, tgt in tm["cases"]:
                val = int(val)
                if ty["k"] == "bool":
                    c = t.tobdd(v)
                    if val == 0:
                        c = t.bnot(c)
                else:
                    r = self.binop_eq(v, cint(val))
                    c = t.tobdd(r)
                cc = t.band(rest, c)
                rest = t.band(rest, t.bnot(c))
                if cc:
                    out.setdefault(tgt, []).append(st.copy(cc))
            if rest:
                out.setdefault(tm["else"], []).append(st.copy(rest))
            return out
        if k == "call":
            self.stats["calls"] += 1
            return self.call(fr, bb, st, tm, site)
        raise AnalysisError("terminator " + k)

    def binop_eq(self, a, b):
        r = None
        for ca, x in t.leaves(a):
            if x is UNINIT:
                continue
            v = t.ieq(x, b)
            r = v if r is None else ite(ca, v, r)
        return r if r is not None else FALSE

    def call(self, fr, bb, st, tm, site):
        import prims
        f = tm["f"]
        args = [self.operand(fr, st, a) for a in tm["args"]]
        fkey = (fr["id"], bb) + self.peel
        if f["k"] != "fn":
            # call through a local fn pointer / closure value
            self.unknown.setdefault("indirect call", set()).add(site)
            self.emit("unknown", st.pc, site, name="indirect call", args=args)
            s, r = st, mk("indirect", tuple(args), fkey)
        else:
            s, r = prims.dispatch(self, fr, st, f["fn"], args, fkey, site, tm)
        if s is None or s.pc == 0 or tm["to"] is None:
            return {}
        p = tm["dst"]
        if not p[1]:
            k = self.tkind(fr["fn"]["locals"][p[0]][0])
            if k and r.op != "ref":
                alg.setkind(r, k)
            s.mem[("L", fr["id"], p[0])] = r
        else:
            ref, tid, var = self.place(fr, s, p)
            self.wref(s, ref, (), r, site)
        return {tm["to"]: [s]}

    # call a closure / fn item value
    def call_value(self, fv, args, st, fkey, site):
        fv = t.simp(fv, st.pc)
        f = fv
        n = 0
        while f.op == "ref" and n < 4:
            f = self.rref(st, f)
            n += 1
        if f.op == "agg" and f.attr.startswith("closure:"):
            fid = f.attr.rsplit(":", 1)[1]
            if not fid.isdigit():
                same = [i for i, g in self.d.fns.items() if g["path"] == f.attr[8:]]
                fid = same[0] if len(same) == 1 else "None"
            m = re.match(r"closure:<(?:&'a )?(\w+) as std::iter::Sum(?:<.*>)?>::sum::\{closure#0\}", f.attr)
            if fid == "None" and m:
                # |a, b| a + b of a primitive type
                a, b = (self.rref(st, x) if x.op == "ref" else x for x in args)
                return st, (t.add(a, b) if m.group(1) in ("f32", "f64") else t.iadd(a, b))
            if fid != "None":
                fid = int(fid)
                cf = self.d.fns[fid]
                selfty = self.d.types[cf["locals"][1][0]]
                self_arg = fv
                if selfty["k"] == "ref":
                    if fv.op == "agg":
                        root = ("L", mk("frame", (), fkey).id, "clo")
                        st.mem[root] = fv
                        self_arg = mkref(root, ())
                else:
                    self_arg = f
                return self.call_fn(fid, [self_arg] + list(args), st, fkey, site)
        if f.op == "ite":
            # one of several functions: each under its condition
            outs = []
            for i, (c, g) in enumerate(t.leaves(f)):
                c = t.band(st.pc, c)
                if c == 0:
                    continue
                s, r = self.call_value(g, args, st.copy(c), fkey + ("arm", i), site)
                if s is not None:
                    s.mem[("R",) + fkey] = r
                    outs.append(s)
            s = merge(outs)
            return (None, None) if s is None else (s, s.mem.pop(("R",) + fkey))
        if f.op == "fnitem":
            if f.attr[1] is not None:
                return self.call_fn(f.attr[1], list(args), st, fkey, site)
            import prims
            return prims.dispatch(self, None, st, dict(path=f.attr[0], res=f.attr[0], full=f.attr[0], trait="", targs=[]), list(args), fkey, site, None)
        self.unknown.setdefault("indirect call", set()).add(site)
        self.emit("unknown", st.pc, site, name="indirect call", args=[fv] + list(args))
        return st, mk("indirect", (fv,) + tuple(args), fkey)

    # -------------------------------------------------- entry
    def run(self, path, args=None, st=None):
        f = self.d.fn(path) if isinstance(path, str) else path
        st = st or St({}, 1)
        if args is None:
            args = self.default_args(f, st)
        return self.call_fn(f["id"], args, st, ("root", f["path"]), (f["path"], "entry"))

    def default_args(self, f, st, names=None):
        args = []
        for i in range(f["argc"]):
            tid, name = f["locals"][i + 1]
            ty = self.d.types[tid]
            nm = (names or {}).get(i) or "arg%d" % i
            if ty["k"] == "ref":
                args.append(mkref((nm,), ()))
            else:
                args.append(mk("sym", (), nm))
        return args
