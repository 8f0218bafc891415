"""Energy, and the force of gravity, as reported to users."""
from forms import *


def energy(M, mass, v, w, inertia):
    """the reference: kinetic energy of a rigid body"""
    lin = t.div(t.mul(mass, t.dot(v, v)), num(2.0))
    rotl = t.div(t.dot(mk("mm", (inertia, w)), w), num(2.0))
    fin = t.add(lin, rotl)
    inf = t.bvar(mk("batom", (mass,), "isinf"))
    eps = epsilon(M)
    rest = t.band(t.tobdd(t.flt(t.norm(v), eps)), t.tobdd(t.flt(t.norm(w), eps)))
    return ite(inf, ite(rest, num(0.0), num("inf")), fin)


def epsilon(M):
    return t.cflt("1e-06")


def run(M, R):
    R.expl = "Entity::get_total_energy as an algebraic expression of the entity's fields, compared in every case with m v.v/2 + w.(R I R^T w)/2 (infinite mass: 0 at rest, infinite when moving)"
    en = Obj(M, M.ent, "ent")
    e, s, r = call(M, R, "fluffy_tribble::entity::Entity::get_total_energy", [en.ref], [en])
    known_calls(R, e, "energy", "get_total_energy")
    nopanic(R, e, "energy", "get_total_energy")
    unchanged(R, s, [en], "energy", "get_total_energy")
    qq = qfrom(en.get("rotation"))
    I = mk("mm", (mk("mm", (qmat(qq), en.get("last_prepped_moment_of_inertia"))), transpose(qmat(qq))))
    mass = en.get("last_total_mass")
    want = energy(M, mass, en.get("velocity"), en.get("angular_velocity"), I)
    inf = t.bvar(mk("batom", (mass,), "isinf"))
    same(R, e, "energy:finite", r, want, "kinetic energy of an entity of finite mass is m v.v/2 + w.Iw/2", pc=t.bnot(inf))
    same(R, e, "energy:infinite", r, want, "energy of an entity of infinite mass is zero at rest and infinite otherwise", pc=inf)
