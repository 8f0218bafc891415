"""Meshes meet planes where and when their lowest part reaches them."""
from narrow import *


def run(M, R):
    R.expl = ("collide is run symbolically on a mesh and a plane, in both orders; the loops over the corners are summarised: variables that keep the smallest or largest of a series of distances, and variables "
              "that add up the places of the corners under a condition, are recognised by their value at entry and after one more round and replaced by symbols; the rest is compared with the "
              "reference as for spheres and planes")
    for swap in (False, True):
        mesh(M, R, swap)


def walked(e, lp, n):
    """(counter, substitution) if the loop looks at elements 0 .. n of a list of length n, directly or through lists filled one element each"""
    d = lp.driver()
    if d is None or d[1] != "count" or lp.init(d[0]) is not cint(0):
        return None
    return d[0] if listsource(e, d[2]) is n else None


def firstround(e, lp, C):
    """the variables' values after the first round, but for the counters"""
    mp = {m: lp.init(m) for m in lp.mus if m not in lp.counters() and lp.init(m).op in ("f", "neg", "b")}

    def hook(x):
        if x.op == "batom" and x.attr in ("isnan", "isinf", "isfin") and x.args[0].op == "f":
            v = x.args[0].attr
            k = {"nan": "isnan", "inf": "isinf", "-inf": "isinf"}.get(v, "isfin")
            return t.TRUE if x.attr == k else t.FALSE
        return None
    return Pipe(Subst(e, mp, 1, hook), C)


def mesh(M, R, swap):
    positive()
    n = V("n")
    alg.UNIT.add(("t", n.id))
    P = Pair(M, R, "Mesh", "Plane", swap=swap, over_b={"normal": n})
    e = P.e
    tag = "mesh-plane:" + ("second:" if swap else "")
    P.start(tag)
    A0, A1, B0, B1 = (P.at[k] for k in ("A0", "A1", "B0", "B1"))
    verts = P.a.get("vertices")
    count = vlen(e, verts)

    def corner(k):
        x = velem(e, verts, k)
        alg.setkind(x, "v")
        return x
    start = lambda k: t.add(A0, rot(P.s1.get("rotation"), corner(k)))
    end = lambda k: t.add(A1, rot(P.e1.get("rotation"), corner(k)))
    D = {"start": lambda k: t.dot(t.sub(start(k), B0), n), "end": lambda k: t.dot(t.sub(end(k), B1), n)}
    C = clean(e, resolver(e))
    # smallest and largest distance: the largest one is the smallest plus how much they spread
    ext = {}
    for w in D:
        lo, spread = S(w + "_lowest"), S_(w + "_spread")
        ext[w, "min"], ext[w, "max"] = lo, t.add(lo, spread)
    mp = {}
    loops = [Loop(e, k) for k in e.loopinfo if "backst" in e.loopinfo[k] and e.loopinfo[k]["backst"] is not None]
    loops = [lp for lp in loops if lp.driver() is not None]
    seen = 0
    for lp in loops:
        k = walked(e, lp, count)
        R.check(k is not None, tag + "all:" + lp.where().split(" ")[0], "a loop does not look at all corners of the mesh: %s" % lp.where(), tag + " every loop looks at all corners")
        if k is None:
            continue
        seen += 1
        first = firstround(e, lp, C)
        for m in sorted(lp.mus, key=lambda m: m.id):
            if m in lp.counters() or kind_(e, lp.init(m)) != "s" or lp.init(m).op not in ("f", "neg"):
                continue
            f0 = None
            for w, d in D.items():
                if f0 is None:
                    f0 = first(lp.nxt(m))
                if differs(e, f0, C(d(k))) is not None:
                    continue
                step = C(lp.nxt(m))
                for x, want in (("min", ite(lt(d(k), m), d(k), m)), ("max", ite(lt(m, d(k)), d(k), m))):
                    if differs(e, step, C(want)) is None:
                        mp[m] = ext[w, x]
    R.floor("loops_over_corners", seen, 1)
    R.check(len(mp) >= 2, tag + "extremes", "no variables that keep the smallest distances from the plane were found", tag + " the loops keep the smallest distances from the plane")
    named = Pipe(Subst(e, mp), C)
    # the corners near the lowest one: how many, and the sum of their places
    sums = {}
    at = {"start": start, "end": end}
    near = {}
    names = {}
    for w in D:
        names[w] = (V(w + "_total"), S_(w + "_count"))
    for lp in loops:
        k = walked(e, lp, count)
        if k is None:
            continue
        for m in sorted(lp.mus, key=lambda m: m.id):
            if m in mp or m in lp.counters():
                continue
            i0 = lp.init(m)
            kd = "v" if C(i0).op == "zeros" or t.isvec3(C(i0)) else "i" if i0 is cint(0) else kind_(e, i0)
            if kd not in ("s", "v", "i"):
                continue
            nx = named(lp.nxt(m))
            for w, d, o in [(w, d, o) for w, d in D.items() for o in (t.fabs, lambda y: y)]:
                off = t.sub(d(k), ext[w, "min"])        # never negative
                c = t.bnot(lt(t.mul(num(0.01), t.sub(ext[w, "max"], ext[w, "min"])), o(off)))
                if kd == "v":
                    alg.setkind(m, "v")
                    if differs(e, i0, vec0()) is None and differs(e, nx, C(ite(c, t.add(m, at[w](k)), m))) is None:
                        sums[m] = names[w][0]
                elif kd == "i":
                    inc = [t.bor(0, c2) for c2, x in t.leaves(nx) if t.iadd(x, m, -1) is cint(1)]
                    rest = [x for _, x in t.leaves(nx) if x is not m and t.iadd(x, m, -1) is not cint(1)]
                    got = 0
                    for c2 in inc:
                        got = t.bor(got, c2)
                    if inc and not rest and order.equivalent(e, got, C.b(c)) is None:
                        sums[mk("i2f", (m,))] = names[w][1]
                elif kd == "s":
                    if differs(e, i0, num(0.0)) is None and differs(e, nx, C(ite(c, t.add(m, num(1.0)), m))) is None:
                        sums[m] = names[w][1]
    R.check({x for w in names for x in names[w]} <= set(sums.values()), tag + "lowest", "the places of the corners within a hundredth of the lowest one are not all added up and counted, at the start and at the end (found: %s)" % ", ".join(sorted(x.attr for x in sums.values())),
            tag + " the corners within a hundredth of the lowest one are added up and counted, at the start and at the end")
    full = Pipe(named, Subst(e, sums), C)
    h, tm, p, nn = P.parts()
    lo, v = ext["start", "min"], t.sub(ext["end", "min"], ext["start", "min"])
    T = overlap(NINF(), num(0.0), lo, ext["start", "max"], v).meet(UNITTIME())
    mean = {w: t.div(names[w][0], names[w][1]) for w in names}
    P.matches(tag, full.b(h), full(tm), full(p), full(nn), T, None, lambda tt: along(mean["start"], mean["end"], tt), lambda tt: n if swap else t.neg(n))


def vec0():
    return t.agg("vec3", [num(0.0)] * 3)
