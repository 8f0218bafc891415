"""The gravity generator."""
from forms import *


def run(M, R):
    R.expl = "the force returned by GravityGenerator for a live entity, as an algebraic expression, is total mass times acceleration at the entity's position; asking changes neither the system nor the generator"
    fs = [f for f in M.d.fns.values() if f["local"] and f.get("name") == "make_force" and f.get("impl_self") is not None and M.d.types[f["impl_self"]]["path"].endswith("::GravityGenerator")]
    if len(fs) != 1:
        raise AnalysisError("GravityGenerator::make_force not found")
    g = Obj(M, fs[0]["impl_self"], "gravity")
    h = t.sym("h")
    e, s, r = call(M, R, fs[0], [g.ref, S("dt"), M.selfref(), h], [g])
    known_calls(R, e, "gravity", "make_force")
    sys0 = init_root(SELF)
    live = M.alive(e, sys0, "ent", h)
    nopanic(R, e, "gravity", "make_force for a live entity", pc=live)
    unchanged(R, s, [g], "gravity", "make_force")
    R.check(restrict(M.system(s), s.pc) is sys0, "gravity:system", "asking gravity for its force changes the system", "the system is only read")
    ft = M.d.type_named("force::Force")
    pc = t.band(s.pc, live)
    m = M.efield(e, sys0, h, "total_mass")
    x = M.efield(e, sys0, h, "orientation", "position")
    alg.setkind(x, "v")
    same(R, e, "gravity:force", e.project(r, M.d.fproj(ft, "force")), t.mul(m, g.get("acceleration")), "gravity is total mass times the acceleration", pc=pc)
    same(R, e, "gravity:position", e.project(r, M.d.fproj(ft, "position")), x, "gravity acts at the center of mass", pc=pc)
    a = V("a")
    new = [f for f in M.d.fns.values() if f["local"] and f.get("name") == "new" and f.get("impl_self") == fs[0]["impl_self"]]
    if new:
        e, s, r = call(M, R, new[0], [a])
        same(R, e, "gravity:new", g.get("acceleration", v=r), a, "GravityGenerator::new stores the acceleration")
    fn = [f for f in M.d.fns.values() if f["local"] and f.get("name") == "new" and f.get("impl_self") == ft]
    f, p = V("f"), V("p")
    e, s, r = call(M, R, fn[0], [f, p])
    same(R, e, "force:new", e.project(r, M.d.fproj(ft, "force")), f, "Force::new stores the force")
    same(R, e, "force:new:position", e.project(r, M.d.fproj(ft, "position")), p, "Force::new stores the point it acts at")
