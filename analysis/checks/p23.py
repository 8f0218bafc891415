"""The same history gives the same results."""
import re
from model import *

HASH = re.compile(r"(^|::)(HashSet|HashMap)$")
HASHITER = re.compile(r"(std::collections::hash(_set|_map)?(::(set|map))?|hashbrown(::[a-z_]+)*)::(Iter|IterMut|IntoIter|Drain|Keys|Values|ValuesMut|IntoKeys|IntoValues|Union|Intersection|Difference|SymmetricDifference|ExtractIf|RawIter)$")
SETS = re.compile(r"(^|::)(HashSet|HashMap|BTreeSet|BTreeMap)$")
# what depends only on the members
MEMBERS = {"new", "with_capacity", "default", "insert", "contains", "contains_key", "remove", "len", "is_empty", "clear", "get", "get_mut", "take", "replace", "clone", "clone_from", "eq", "ne", "is_subset", "is_superset", "is_disjoint", "reserve",
           "shrink_to_fit", "borrow", "borrow_mut", "as_ref", "as_mut", "deref", "deref_mut", "index", "entry", "remove_entry", "get_or_insert_with", "get_or_insert", "from", "into", "from_iter", "extend", "drop", "fmt", "to_owned"}
# these give an iterator; what is done with it counts
ITERS = {"iter", "iter_mut", "into_iter", "drain", "keys", "values", "values_mut", "into_keys", "into_values", "union", "intersection", "difference", "symmetric_difference"}
# an iterator made from one in arbitrary order is in arbitrary order
ADAPT = {"into_iter", "iter", "cloned", "copied", "map", "filter", "filter_map", "chain", "by_ref", "inspect", "flat_map", "flatten", "fuse", "clone", "size_hint", "drop"}
# results that are the same in any order
ANY = {"any", "all", "count", "len", "is_empty", "size_hint"}
# sources of results that differ from run to run
SOURCES = re.compile(r"^(std|core|alloc)::(time::(Instant|SystemTime)|thread::|env::|fs::|net::|process::(id|Command)|random|os::|io::(stdin|Stdin|stdio::stdin|stdio::Stdin)|io::Read::|hash::(RandomState|random)|collections::hash_map::RandomState|collections::hash::map::RandomState)|RandomState|getrandom|(^|<)rand(_core)?::|fastrand|::expose_provenance|::addr$|std::thread_local|LocalKey|MaybeUninit::<.*>::assume_init|mem::uninitialized")


def run(M, R):
    R.expl = ("effect analysis over the resolved calls, casts, comparisons and constants of every function of the crate: nothing reads a clock, the environment, a random source, an address or shared mutable statics, and no value derived from the "
              "iteration order of a hash table leaves an order-independent use")
    T = M.d.types
    D = Order(M)
    n = nh = 0
    for f in sorted(M.d.fns.values(), key=lambda f: f["id"]):
        if not f["local"]:
            continue
        R.count("functions_analysed")
        bad = []
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    D.stmt(f, s[2], s[1], bad)
            n += D.call(f, b["t"], bad)
        R.check(not bad, f["path"], "%s: %s" % (f["path"], "; ".join(sorted(set(bad)))[:600]), "%s: %d calls, none that differs between runs" % (f["path"], sum(b["t"]["k"] == "call" for b in f["blocks"])))
    R.count("calls_resolved", n)
    R.count("hash_table_uses", D.n)
    R.floor("functions", R.cov.get("functions_analysed", 0), 60)


class Order:
    def __init__(self, M):
        self.M, self.T = M, M.d.types
        self.memo = {}
        self.n = 0

    # ---- types
    def strip(self, tid):
        while self.T[tid]["k"] in ("ref", "ptr"):
            tid = self.T[tid]["to"]
        return self.T[tid]

    def ishash(self, tid):
        return bool(HASH.search(self.strip(tid).get("path", "")))

    def iter(self, tid, depth=0):
        """the type is, or is built around, an iterator over a hash table"""
        if tid in self.memo:
            return self.memo[tid]
        self.memo[tid] = False
        ty = self.T[tid]
        r = bool(HASHITER.search(ty.get("path", ""))) or any(self.iter(x) for x in self.sub(ty))
        self.memo[tid] = r
        return r

    def sub(self, ty):
        return [x for x in ([ty["to"]] if isinstance(ty.get("to"), int) else []) + list(ty.get("args") or []) + list(ty.get("upvars") or []) if isinstance(x, int)]

    def mutcap(self, tid):
        """a closure that changes something it captured"""
        ty = self.strip(tid)
        return ty["k"] == "closure" and any(self.T[u]["k"] == "ref" and self.T[u]["mut"] for u in ty.get("upvars") or [])

    def otype(self, f, o):
        if o["k"] in ("copy", "move"):
            return self.ptype(f, o["p"])
        return o.get("t")

    def ptype(self, f, p):
        tid = f["locals"][p[0]][0]
        for j in p[1]:
            if j[0] == "f":
                tid = j[2] if isinstance(j[2], int) else tid
            elif j[0] == "*" and self.T[tid]["k"] in ("ref", "ptr"):
                tid = self.T[tid]["to"]
        return tid

    # ---- statements
    def stmt(self, f, rv, place, bad):
        if rv["k"] == "cast":
            ck = str(rv.get("ck"))
            src = self.otype(f, rv["o"])
            k = self.T[src]["k"] if src is not None else ""
            if "Expose" in ck or ck == "Transmute" and k in ("ptr", "ref", "fnptr") and self.T[rv["t"]]["k"] in ("int", "uint") and not self.alignment(f, place):
                bad.append("an address becomes a number")
        elif rv["k"] == "bin" and rv.get("op") in ("Lt", "Le", "Gt", "Ge", "Cmp"):
            ty = self.otype(f, rv["l"])
            if ty is not None and self.T[ty]["k"] in ("ptr", "fnptr"):
                bad.append("addresses are ordered")
        elif rv["k"] == "other":
            bad.append("a thread-local value is used")
        for o in ops(rv):
            if o.get("k") == "c" and o.get("static") and not o.get("fixed"):
                bad.append("%s is shared between systems and can change" % o["static"])

    def alignment(self, f, place):
        """the address is only masked for the check that a pointer is aligned"""
        l = place[0]
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=" or s[1] == place and s[2].get("k") == "cast":
                    continue
                for o in ops(s[2]):
                    if o.get("p") and o["p"][0] == l and not (s[2]["k"] == "bin" and s[2]["op"] in ("BitAnd", "Eq")):
                        return False
            if b["t"]["k"] == "call" and any(o.get("p") and o["p"][0] == l for o in b["t"]["args"]):
                return False
        return True

    # ---- calls
    def call(self, f, tm, bad):
        if tm["k"] != "call":
            return 0
        for o in tm["args"]:
            if o.get("k") == "c" and o.get("static") and not o.get("fixed"):
                bad.append("%s is shared between systems and can change" % o["static"])
        if tm["f"]["k"] != "fn":
            return 1
        fn = tm["f"]["fn"]
        path = fn.get("res") or fn["path"]
        full = fn.get("full") or path
        name = path.split("::")[-1]
        for p in (path, full.split("<")[0]):
            if SOURCES.search(p):
                bad.append("%s is called (%s)" % (p, tm["sp"]))
        g = self.M.d.fns.get(fn["id"]) if "id" in fn else None
        if g is not None and g["local"]:
            return 1
        args = [self.otype(f, o) for o in tm["args"]]
        args = [a for a in args if a is not None]
        dst = self.ptype(f, tm["dst"]) if tm.get("dst") else None
        what = "%s at %s" % (name, tm["sp"])
        if any(self.iter(a) for a in args):
            self.n += 1
            clo = any(self.mutcap(a) for a in args)
            if name in ADAPT and not clo and (dst is None or self.iter(dst) or name in ("drop", "size_hint")):
                return 1
            if name in ANY and not clo:
                return 1
            if name in ("collect", "from_iter") and dst is not None and SETS.search(self.strip(dst).get("path", "")):
                return 1
            if name == "extend" and SETS.search(self.strip(args[0]).get("path", "")):
                return 1
            if name in ("min", "max", "sum", "product") and dst is not None and self.exact(dst):
                return 1
            bad.append("the order of a hash table reaches " + what)
            return 1
        h = [i for i, a in enumerate(args) if self.ishash(a)]
        if h:
            self.n += 1
            own = bool(re.search(r"Hash(Set|Map)", path)) and 0 in h
            if name in ITERS:
                return 1            # judged where the iterator is used
            if name in ("extend", "from_iter") and not SETS.search(self.strip(args[0] if name == "extend" else dst).get("path", "")):
                bad.append("the order of a hash table reaches " + what)
            elif name == "retain" and own:
                if any(self.mutcap(a) for a in args):
                    bad.append("the order of a hash table reaches " + what)
            elif own and name not in MEMBERS:
                bad.append("%s of a hash table is not known to be independent of its order" % what)
        return 1

    def exact(self, tid):
        """a type in which sums and extremes do not depend on the order"""
        ty = self.T[tid]
        if ty.get("path") == OPT:
            return self.exact(ty["args"][0])
        if ty["k"] in ("ref",):
            return self.exact(ty["to"])
        return ty["k"] in ("int", "uint", "bool", "char") or ty.get("path", "").startswith("generational_arena::Index")


def ops(rv):
    out = [rv[k] for k in ("o", "l", "r") if isinstance(rv.get(k), dict)]
    return out + [o for o in rv.get("ops", []) if isinstance(o, dict)]
