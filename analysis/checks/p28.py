"""Null colliders, plane pairs and boxes against non-spheres never collide."""
from narrow import *


def run(M, R):
    R.expl = ("`collide` is interpreted on two colliders of every ordered pair of types in question, everything else about them and the four orientations symbolic: the condition under which it returns a collision must be unsatisfiable, as must that of "
              "every panic site, and nothing may be written")
    cf = collide_fn(M)
    tids = {p.split("::")[-1]: i["tid"] for p, i in M.ctraits.items()}
    null = [n for n in tids if "Null" in n]
    plane = [n for n in tids if "Plane" in n]
    box = [n for n in tids if "Box" in n]
    if len(null) != 1 or len(plane) != 1 or len(box) != 1:
        raise AnalysisError("expected one null, one plane and one box collider type")
    pairs = sorted({p for n in tids for p in ((null[0], n), (n, null[0]))} | {(plane[0], plane[0])} | {p for n in tids if "Sphere" not in n for p in ((box[0], n), (n, box[0]))})
    otid = M.d.types[cf["locals"][2][0]]["to"]
    for n1, n2 in pairs:
        tag = "%s, %s" % (n1, n2)
        a, b = Obj(M, tids[n1], "A"), Obj(M, tids[n2], "B")
        os_ = [Obj(M, otid, n) for n in ("s1", "e1", "s2", "e2")]
        e, s, r = call(M, R, cf, [a.ref, os_[0].ref, os_[1].ref, b.ref, os_[2].ref, os_[3].ref], [a, b] + os_)
        R.count("pairs")
        known_calls(R, e, tag + ":known", tag)
        if s is not None:
            unchanged(R, s, [a, b] + os_, tag + ":args", "collide")
        h = 0 if s is None else t.band(s.pc, t.bnot(fail_cond(None, r, "option")))
        R.check(h == 0, tag + ":none", "a collision between %s and %s can be reported, e.g. when %s" % (n1, n2, t.showb(h, 3, 1)[:300]), "%s and %s never collide" % (n1, n2))
        nopanic(R, e, tag + ":panic", tag, 1)
    R.floor("pairs", R.cov.get("pairs", 0), 15)
