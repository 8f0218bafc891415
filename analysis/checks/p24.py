"""Spheres meet spheres and planes where and when they touch."""
from narrow import *


def run(M, R):
    R.expl = ("collide is run symbolically on a sphere and a sphere, and on a sphere and a plane, in both orders; the condition for a collision, its time, place and normal are compared with the ones of "
              "geometry (zeros of |distance|^2 - (r1 + r2)^2, crossing time of the half space), in normal form over the reals and BDDs over canonical comparisons")
    n = 0
    for swap in (False, True):
        n += spheres(M, R, swap)
        n += plane(M, R, swap)
    R.floor("pairs", n, 4)


def spheres(M, R, swap):
    positive(R)
    S, r1 = S_("S"), S_("r1")
    # r1 + r2 = S: the radii of the one whose contact is computed first is left free
    over = dict(over_a={"radius": r1}, over_b={"radius": t.sub(S, r1)})
    if swap:
        over = dict(over_a={"radius": t.sub(S, r1)}, over_b={"radius": r1})
    P = Pair(M, R, "Sphere", "Sphere", **over)
    tag = "sphere-sphere:" + ("second:" if swap else "")
    A0, A1, B0, B1 = (P.at[k] for k in ("A0", "A1", "B0", "B1"))
    dv, dc = t.sub(t.sub(A1, A0), t.sub(B1, B0)), t.sub(A0, B0)
    T = roots(t.dot(dv, dv), t.mul(num(2.0), t.dot(dv, dc)), t.sub(t.dot(dc, dc), t.mul(S, S))).meet(UNITTIME())

    def refs(tm):
        c1, c2 = along(A0, A1, tm), along(B0, B1, tm)
        rA = r1 if not swap else t.sub(S, r1)
        d = t.sub(c2, c1)
        return t.add(c1, t.mul(t.div(rA, S), d)), t.div(d, t.norm(d)), c1, c2
    P.compare(tag, T, lambda tm: refs(tm)[0], None if swap else lambda tm: refs(tm)[1])
    return 1


def plane(M, R, swap):
    positive(R)
    r = S_("r1")
    n = V("n")
    alg.UNIT.add(("t", n.id))
    P = Pair(M, R, "Sphere", "Plane", swap=swap, over_a={"radius": r}, over_b={"normal": n})
    A0, A1, B0, B1 = (P.at[k] for k in ("A0", "A1", "B0", "B1"))
    v = t.dot(t.sub(t.sub(B1, B0), t.sub(A1, A0)), n)
    c = t.dot(A0, n)
    T = overlap(t.sub(c, r), t.add(c, r), NINF(), t.dot(B0, n), v).meet(UNITTIME())
    P.compare("sphere-plane:" + ("second:" if swap else ""), T, lambda tm: t.sub(along(A0, A1, tm), t.mul(r, n)), lambda tm: n if swap else t.neg(n))
    return 1


def S_(n):
    x = S(n)
    alg.POS.add(("t", x.id))
    return x


def along(a, b, tm):
    return t.add(a, t.mul(tm, t.sub(b, a)))


def positive(R):
    alg.POS.clear()
    alg.SQUARES.clear()
    alg.FINITE[0] = True
