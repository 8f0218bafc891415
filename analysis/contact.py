"""The response to a collision, taken apart: each quantity the laws of impact speak of is recognised in the
velocities after the round by proof (equal normal form) and replaced by one symbol."""
from round import *

COEFF = (("e", "get_restitution_coefficient"), ("threshold", "get_friction_threshold"), ("mu_s", "get_static_friction_coefficient"), ("mu_d", "get_dynamic_friction_coefficient"))


class Contact(Impact):
    def __init__(self, M, S=None):
        Impact.__init__(self, M, S)
        e = self.e
        a, b = self.who
        zero = lambda d: t.tobdd(t.feq(num(0.0), d["m"]))
        self.massive = t.band(t.bnot(zero(a)), t.bnot(zero(b)))
        g = Subst(e, None, self.massive)
        self.V = {}
        for i, d in enumerate(self.who):
            for n in ("v'", "w'"):
                self.V[n, i] = g(d[n])
        self.r = [t.sub(self.pp, d["x"]) for d in self.who]
        self.dv = t.sub(self.speed(a), self.speed(b))     # relative velocity at the contact before the impact
        self.seen = []

    def K(self, d):
        """how fast a unit impulse along d drives the two apart at the contact"""
        s = tadd(*[t.div(num(1.0), q["m"]) for q in self.who])
        for q, r in zip(self.who, self.r):
            s = t.add(s, t.dot(t.cross(mk("mm", (q["J"], t.cross(r, d))), r), d))
        return s

    def coefficients(self):
        """{name: (of the first collider, of the second)} with their definitions"""
        self.co, self.codef = {}, {}
        for nm, m in COEFF:
            out = []
            for i, ai in ((1, 0), (2, 3)):
                c = self.name(self.M.collider_get(self.e, self.head, self.ws(self.R.args[ai]).args[1], m))
                s = S_("%s%d" % (nm, i))
                self.codef[s] = c
                out.append(s)
            self.co[nm] = out
        return self.co

    def product(self, nm):
        a, b = self.co[nm]
        return t.mul(a, b)

    def name_part(self, N, what, ref, sym, kd):
        n = N.name(ref, sym, kd)
        self.seen.append((what, n))
        return n

    def layers(self):
        """names for everything the impulse is made of"""
        N = self.NM = Naming(self.e, self.V, self.massive)
        n = self.nn
        self.coefficients()
        p = self.name_part
        self.a, self.Kn, self.jn, self.an = S_("a"), S_("Kn"), S_("jn"), S_("a'")
        p(N, "approach speed", t.dot(self.dv, n), self.a, "s")
        p(N, "response along the normal", self.K(n), self.Kn, "s")
        for s, d in self.codef.items():
            p(N, "coefficient " + s.attr, d, s, "s")
        self.jref = ite(t.tobdd(t.flt(num(0.0), self.Kn)), t.div(t.neg(t.mul(t.add(num(1.0), self.product("e")), self.a)), self.Kn), num(0.0))
        p(N, "normal impulse", self.jref, self.jn, "s")
        if not self.seen[-1][1] and self.seen.pop():                           # decided where the impulse is a vector already
            on = t.tobdd(t.flt(num(0.0), self.Kn))
            j = t.div(t.neg(t.mul(t.add(num(1.0), self.product("e")), self.a)), self.Kn)
            p(N, "normal impulse", ite(on, t.mul(n, j), mk("zeros", (), "mat")), t.mul(n, self.jn), "v")
            N.name(ite(on, mk("norm", (t.mul(n, j),)), num(0.0)), mk("norm", (t.mul(n, self.jn),)), "s")
        dv1 = self.dv
        for q, r in zip(self.who, self.r):
            dv1 = t.add(dv1, t.mul(self.jn, t.add(t.mul(t.div(num(1.0), q["m"]), n), t.cross(mk("mm", (q["J"], t.cross(r, n))), r))))
        self.dv1 = dv1                                     # relative velocity after the normal impulse
        p(N, "separation speed", t.dot(dv1, n), self.an, "s")
        self.sl, self.ls, self.tt, self.Kt = V("sliding"), S_("|sliding|"), V("t"), S_("Kt")
        # by definition: the part of a velocity across the unit normal, and its direction
        nid = ("t", n.id)
        alg.orthogonal(("t", self.sl.id), nid)
        alg.orthogonal(("t", self.tt.id), nid)
        alg.UNIT.add(("t", self.tt.id))
        p(N, "sliding velocity", t.sub(dv1, t.mul(self.an, n)), self.sl, "v")
        p(N, "sliding speed", mk("norm", (self.sl,)), self.ls, "s")
        p(N, "sliding direction", t.div(self.sl, self.ls), self.tt, "v")
        p(N, "response along the sliding", self.K(self.tt), self.Kt, "s")
        return N

    def impulse(self, i, n="v'"):
        """change of momentum of entity i in the round, in terms of the names"""
        d = self.who[i]
        return t.mul(d["m"], t.sub(self.NM.vals["v'", i], d["v"]))

    def theory(self):
        """0 < |sliding| decides whether there is a sliding direction at all"""
        return 1
