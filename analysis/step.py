"""One symbolic run of `PhysicsSystem::step` with the narrow phase (`collide`) opaque, and the
loops of the step identified by what they do."""
from model import *
from alg import Alg


def collide_fn(M):
    """the narrow phase entry point: the local function that takes two boxed colliders with two orientations each"""
    out = []
    for f in M.d.fns.values():
        if not f["local"] or f["argc"] != 6 or f.get("impl_self"):
            continue
        tys = [M.d.types[f["locals"][i + 1][0]] for i in range(6)]
        if any(ty["k"] != "ref" or M.d.types[ty["to"]].get("local") for ty in (tys[0], tys[3])):
            continue
        if all(ty["k"] == "ref" and M.d.types[ty["to"]].get("path", "").endswith("Orientation") for ty in (tys[1], tys[2], tys[4], tys[5])):
            out.append(f)
    if len(out) != 1:
        raise AnalysisError("expected one narrow-phase function over two colliders and four orientations, found %d" % len(out))
    return out[0]


class Step:
    def __init__(self, M):
        self.M = M
        self.cf = collide_fn(M)
        e = self.e = M.engine(opaque={self.cf["path"]})
        f = M.api("step")
        st = St({}, 1)
        args = e.default_args(f, st)
        args[0] = M.selfref()
        self.dt = args[1]
        self.s, self.ret = M.run(e, f, args, st)
        self.sys0 = init_root(SELF)
        calls = [ev for ev in e.log if ev["kind"] == "call" and ev["name"] == self.cf["path"]]
        if not calls:
            raise AnalysisError("step never calls %s" % self.cf["path"])
        self.collides = calls
        self.iter = calls[0]["loops"][0] if calls[0]["loops"] else None
        user = [ev for ev in e.log if ev["kind"] == "usercall"]
        self.users = user
        self.integ = user[0]["loops"][0] if user and user[0]["loops"] else None

    def map_of(self, st, which="ent"):
        return self.e.project(self.M.arena(self.e, self.M.system(st), which), prims.AM)

    def field(self, st, k, *names):
        """entity field of entity k in state st"""
        return self.M.efield(self.e, self.M.system(st), k, *names)
