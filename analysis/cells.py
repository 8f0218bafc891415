"""Dynamic borrows (`RefCell`) as a typestate: which guards are alive at every point of every
function, and what a call may borrow while they are.

Forward dataflow over the MIR (drops are explicit there), to a fixpoint per function; a guard is
anchored at the local that holds it and follows moves, aggregates and calls that return guards. What a
function may borrow is summed up over the call graph: closures handed to library functions count as
called by them, trait objects as any of their implementations, and methods that users implement as
every public function they can reach with the shared references they are given."""
from model import *

SHARED = {"borrow", "try_borrow", "take_ref"}
MUT = {"borrow_mut", "try_borrow_mut", "replace", "replace_with", "swap", "take", "set"}
MOMENT = {"replace", "replace_with", "swap", "take", "set"}
GUARD = ("std::cell::Ref", "std::cell::RefMut", "core::cell::Ref", "core::cell::RefMut")


class Cells:
    def __init__(self, M):
        self.M, self.d = M, M.d
        self.types = M.d.types
        self.users = M.user_traits()
        self.gmemo = {}
        self.sum = {}               # fn id -> {(cell, mut): how}
        self.out = {}               # fn id -> guards it returns
        self.calls = {}             # fn id -> [(block, callees)]
        self.ty = {}
        self.sites = []
        self.local = [f for f in self.d.fns.values()]
        # what users' methods can reach
        shared = []
        for f in self.local:
            if not f["local"] or f["vis"] != "pub" or f["kind"] != "fn":
                continue
            tys = [self.types[f["locals"][i + 1][0]] for i in range(f["argc"])]
            if any(ty["k"] == "ref" and not ty["mut"] and ty["to"] == M.sys for ty in tys):
                shared.append(f["id"])
        self.reach = shared
        for _ in range(60):
            changed = False
            for f in self.local:
                s = self.summary(f)
                if s != self.sum.get(f["id"]):
                    self.sum[f["id"]] = s
                    changed = True
                o = self.flow(f, None)
                if o != self.out.get(f["id"], frozenset()):
                    self.out[f["id"]] = o
                    changed = True
            if not changed:
                break
        else:
            raise AnalysisError("borrows of cells: no fixpoint")

    # ---- types
    def holds(self, tid, depth=0):
        """may a value of this type own a guard?"""
        r = self.gmemo.get(tid)
        if r is None:
            self.gmemo[tid] = False
            r = self.gmemo[tid] = self._holds(self.types[tid])
        return r

    def _holds(self, ty):
        if ty["k"] == "adt":
            if ty.get("path") in GUARD:
                return True
            if any(isinstance(a, int) and self.holds(a) for a in ty.get("args", [])):
                return True
            return any(self.holds(f["t"]) for v in ty.get("variants", []) for f in v.get("f", []))
        if ty["k"] in ("tuple", "array", "closure"):
            s = ty.get("s", "")
            return "cell::Ref" in s or any(isinstance(a, int) and self.holds(a) for a in list(ty.get("args", [])) + list(ty.get("upvars", [])))
        return False

    def localty(self, f, l):
        return f["locals"][l][0]

    # ---- which cell
    def cell(self, f, b, tm):
        """(content type, owner and field if known)"""
        fn = tm["f"]["fn"]
        content = fn["targs"][0]
        a = tm["args"][0]
        where = None
        if a["k"] in ("move", "copy"):
            l = a["p"][0]
            for bb in f["blocks"]:
                for s in bb["s"]:
                    if s[0] == "=" and s[1] == [l, []] and s[2]["k"] == "ref":
                        p = s[2]["p"]
                        last = p[1][-1] if p[1] else None
                        if last and last[0] == "f" and "RefCell" in str(self.types[last[2]].get("path", "")) if last and len(last) > 2 else False:
                            base = self.types[self.localty(f, p[0])]
                            if len(p[1]) == 2 and base["k"] == "ref" and base["to"] == self.M.sys:
                                where = last[1]
        return content, where

    def name(self, c):
        content, where = c
        if where is not None:
            return "the system's " + self.d.fields(self.M.sys)[where]["n"]
        return "a cell of " + self.types[content]["s"]

    @staticmethod
    def same(a, b):
        return a[0] == b[0] and (a[1] is None or b[1] is None or a[1] == b[1])

    # ---- calls
    def callees(self, f, tm):
        """ids of functions of the program a call may run"""
        fo = tm["f"]
        out = []
        if fo["k"] != "fn":
            return None
        fn = fo["fn"]
        if fn["path"] in self.users:
            out += self.reach
        if fn.get("virtual"):
            out += [i["fn"] for i in fn.get("impls", [])]
        elif fn.get("id") is not None and fn["id"] in self.d.fns:
            out.append(fn["id"])
        # closures and functions handed over, whatever calls them
        for tid in list(fn.get("targs", [])):
            out += self.callable(tid)
        for a in tm["args"]:
            if a["k"] in ("move", "copy") and not a["p"][1]:
                out += self.callable(self.localty(f, a["p"][0]))
            elif a["k"] == "c":
                out += self.callable(a["t"])
        return out

    def callable(self, tid):
        if not isinstance(tid, int):
            return []
        ty = self.types[tid]
        while ty["k"] in ("ref", "ptr"):
            tid = ty["to"]
            ty = self.types[tid]
        r = self.ty.get(tid)
        if r is None:
            r = []
            if ty["k"] in ("closure", "fndef"):
                for k in ("id", "fn"):
                    if ty.get(k) in self.d.fns:
                        r.append(ty[k])
                if not r:
                    for g in self.local:
                        if g["kind"] == "closure" and g["argc"] and self.strip(self.localty(g, 1)) == tid:
                            r.append(g["id"])
            self.ty[tid] = r
        return r

    def strip(self, tid):
        while self.types[tid]["k"] in ("ref", "ptr"):
            tid = self.types[tid]["to"]
        return tid

    def op(self, tm):
        """name of the cell operation a call is, or None"""
        if tm["k"] != "call" or tm["f"]["k"] != "fn":
            return None
        p = tm["f"]["fn"].get("res") or tm["f"]["fn"]["path"]
        if p.startswith(("std::cell::RefCell::<T>::", "core::cell::RefCell::<T>::")):
            n = p.split("::")[-1]
            if n in SHARED or n in MUT:
                return n
        return None

    def summary(self, f):
        s = {}
        for b in f["blocks"]:
            tm = b["t"]
            if b["cleanup"] or tm["k"] != "call":
                continue
            n = self.op(tm)
            if n:
                if not n.startswith("try_"):
                    s.setdefault((self.cell(f, b, tm), n in MUT), ())
                continue
            for g in self.callees(f, tm) or ():
                for k in self.sum.get(g, ()):
                    s.setdefault(k, ())
        return s

    # ---- the dataflow
    def flow(self, f, report):
        """guards returned; calls report(site, live guard, what is borrowed) for conflicts"""
        blocks = f["blocks"]
        if not any(b["t"]["k"] == "call" and (self.op(b["t"]) or any(self.out.get(g) for g in self.callees(f, b["t"]) or ())) for b in blocks if not b["cleanup"]) \
                and not any(self.holds(self.localty(f, i + 1)) for i in range(f["argc"])):
            return frozenset()
        ins = {0: frozenset()}
        work = [0]
        ret = set()
        rounds = 0
        while work:
            rounds += 1
            if rounds > 20000:
                raise AnalysisError("borrows of cells: no fixpoint in " + f["path"])
            i = work.pop()
            b = blocks[i]
            if b["cleanup"]:
                continue
            st, succ = self.block(f, b, set(ins[i]), None)
            if b["t"]["k"] == "return":
                ret |= {(c, m) for l, c, m, w in st if l == 0}
            for j in succ:
                if blocks[j]["cleanup"]:
                    continue
                new = ins.get(j, frozenset()) | st
                if j not in ins or new != ins[j]:
                    ins[j] = frozenset(new)
                    work.append(j)
        if report:
            for i in sorted(ins):
                if not blocks[i]["cleanup"]:
                    self.block(f, blocks[i], set(ins[i]), report)
        return frozenset(ret)

    def moved(self, st, op):
        """guards that leave their local by this operand"""
        if op.get("k") != "move":
            return set()
        l = op["p"][0]
        return {x for x in st if x[0] == l} if not any(q[0] == "*" for q in op["p"][1]) else set()

    def block(self, f, b, st, report):
        for s in b["s"]:
            if s[0] in ("dead", "live"):
                st = {x for x in st if x[0] != s[1]}
            elif s[0] == "=":
                dst, rv = s[1], s[2]
                ops = [rv[k] for k in ("o", "l", "r") if isinstance(rv.get(k), dict)] + [o for o in rv.get("ops", rv.get("os", rv.get("args", []))) or [] if isinstance(o, dict)]
                for o in ops:
                    for x in self.moved(st, o):
                        whole = not o["p"][1]
                        if whole:
                            st.discard(x)
                        if self.holds(self.localty(f, dst[0])):
                            st.add((dst[0],) + x[1:])
        tm = b["t"]
        k = tm["k"]
        succ = []
        if k == "goto":
            succ = [tm["to"]]
        elif k == "switch":
            succ = [c[1] for c in tm["cases"]] + ([tm["else"]] if tm.get("else") is not None else [])
        elif k == "drop":
            st = {x for x in st if x[0] != tm["p"][0] or tm["p"][1]}
            succ = [tm["to"]]
        elif k == "assert":
            succ = [tm["to"]]
        elif k == "call":
            n = self.op(tm)
            taken = set()
            for a in tm["args"]:
                for x in self.moved(st, a):
                    if not a["p"][1]:
                        st.discard(x)
                    taken.add(x)
            live = st | taken
            dst = tm["dst"][0]
            if n:
                c, m = self.cell(f, b, tm), n in MUT
                if report:
                    report("site", f, tm, None, c, m)
                    for x in sorted(live, key=str):
                        if self.same(x[1], c) and (m or x[2]) and not n.startswith("try_"):
                            report("clash", f, tm, x, c, m)
                if n not in MOMENT:
                    st.add((dst, c, m, tm["sp"]))
            else:
                cs = self.callees(f, tm)
                if report and live:
                    for g in cs or ():
                        for (c, m) in sorted(self.sum.get(g, ()), key=str):
                            for x in sorted(live, key=str):
                                if self.same(x[1], c) and (m or x[2]):
                                    report("clash", f, tm, x, c, m, self.d.fns[g]["path"])
                for g in cs or ():
                    for c, m in self.out.get(g, ()):
                        st.add((dst, c, m, tm["sp"]))
                leak = tm["f"]["k"] == "fn" and tm["f"]["fn"]["path"].split("::")[-1] in ("forget", "leak")
                if taken and (leak or self.holds(self.localty(f, dst))):
                    if leak:
                        if report:
                            for x in taken:
                                report("leak", f, tm, x, x[1], x[2])
                        st |= {(-1,) + x[1:] for x in taken}
                    else:
                        st |= {(dst,) + x[1:] for x in taken}
            if tm.get("to") is not None:
                succ = [tm["to"]]
        return st, succ
