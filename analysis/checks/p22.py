"""Waking up spreads through everything in contact."""
import itertools
from round import *


def run(M, R):
    R.expl = ("every loop that wakes entities is shown to compute a closure: a worklist that starts with one entity, ends only when it is empty, and in each round wakes the entity taken, clears its neighbours, "
              "queues each neighbour of finite mass not yet treated, and removes it from the neighbours of infinite mass; the conditions under which it starts, and with which entity, are compared as BDDs")
    update(M, R)
    remove(M, R)
    step(M, R)


# ---------------------------------------------------------------- the closure
def wakers(M, e):
    """[(loop, map mu, queue mu)]: loops that set `asleep` to false at what they take from a queue"""
    out = []
    ap = (M.d.fproj(M.ient, "asleep"),)
    for k in e.loopinfo:
        lp = Loop(e, k)
        for m in lp.mus:
            nx = lp.mus[m].get("next")
            if nx is None or lp.backst is None:
                continue
            for c, key, p, v in stores(lp.nxt(m), m, lp.back, e) or ():
                if key is not None and p == ap and key.op == "qitem" and key.args[0] in lp.mus:
                    out.append((lp, m, key.args[0]))
                    break
    return out


def closure(M, R, e, lp, X, Q, tag, colmap=None):
    """obligations of the worklist"""
    F = lambda n: (M.d.fproj(M.ient, n),)
    AS, NB, TM = F("asleep"), F("neighbors"), F("total_mass")
    target = mk("qitem", (Q,))
    more = t.bvar(mk("more", (Q,), "q"))
    ok = lambda c, k, bad, good: R.check(c, tag + k, lp.where() + ": " + bad, tag.rstrip(":") + ": " + good)
    q0 = lp.init(Q)
    ok(q0.op == "qpush" and q0.args[0].op == "qnew", "seed", "the list of entities to wake does not start with one entity: " + t.show(q0, 3)[:120], "waking starts with one entity")
    start = q0.args[1] if q0.op == "qpush" else None
    dead = sum_or(c for c in panics(e, lp))
    leave = t.band(t.band(lp.exitcond(), more), t.bnot(dead))
    ok(leave == 0, "all", "waking can stop although entities are left to wake", "waking goes on until no entity is left to wake")
    ok(t.bimp(lp.back, more), "some", "waking takes an entity from an empty list", "every round takes one")
    nx = lp.nxt(X)
    pc = lp.back
    # done set
    done = [m for m in lp.mus if lp.init(m).op == "emptyset"]
    done = [m for m in done if lp.nxt(m) is mk("sins", (m, target)) or restrict(lp.nxt(m), t.bnot(t.bvar(mk("contains", (m, target))))) is mk("sins", (m, target))]
    D = done[0] if done else None
    # one that was woken before may be passed over: it is still awake and has no neighbours
    skips = False
    if D is not None:
        seen = t.band(pc, t.bvar(mk("contains", (D, target))))
        if seen and restrict(nx, seen) is X and restrict(lp.nxt(Q), seen) is mk("qrest", (Q,)):
            skips = True
            pc = t.band(pc, t.bnot(seen))
    g = lambda x: restrict(x, pc)
    ok(t.band(pc, t.tobdd(g(e.mksel(nx, target, AS)))) == 0, "wakes", "an entity taken from the list is not woken", "the entity taken is awake afterwards")
    nb = g(e.mksel(nx, target, NB))
    cleared = empty(e, nb, NB)
    ok(cleared, "clears", "a woken entity keeps neighbours: " + t.show(nb, 3)[:120], "a woken entity has no neighbours")
    # waking ends: what is queued was not woken before, or was in a set of neighbours that is cleared by then
    ok(D is not None or cleared, "done", "entities already woken are not remembered", "the entities woken are remembered, or forget their neighbours")
    # the inner walk over the neighbours
    inner = []
    ch = stores(nx, X, pc, e)
    if ch is None:
        return ok(False, "writes", "entities are changed in a way that is not understood", "")
    for c, key, p, v in ch:
        if key is None:
            continue
        if key is target and p in (AS, NB):
            continue
        ok(c == 0, "writes", "waking an entity changes %s of %s" % (pname(M, p), t.show(key, 2)[:80]), "")
    for k in e.loopinfo:
        l2 = Loop(e, k)
        if l2.backst is None or not l2.stack or l2.stack[-1] != lp.key:
            continue
        d, w = l2.driver(), source(e, l2)
        S = w[1] if d and w and w[0] == "set" else None     # directly, or through a list of them
        inner.append((l2, d, S))
    NS = e.mksel(X, target, NB)
    inner = [(l2, d) for l2, d, S in inner if S is NS and any(m.attr[1:] == Q.attr[1:] for m in l2.mus)]
    ok(len(inner) == 1, "walk", "not every neighbour of a woken entity is looked at", "every neighbour of a woken entity is looked at")
    if len(inner) != 1:
        return start
    l2, d = inner[0]
    n = mk("sitem", (NS, d[0]))
    ok(l2.init(d[0]) is cint(0), "walk:start", "the first neighbours are skipped", "from the first one")
    rs = Subst(e, None, 1, resolver(e))
    Q2 = [m for m in l2.mus if m.attr[1:] == Q.attr[1:]]
    X2 = [m for m in l2.mus if m.attr[1:] == X.attr[1:]]
    if len(Q2) != 1:
        return ok(False, "queue", "neighbours are not added to the list of entities to wake", "") and start
    Q2 = Q2[0]
    ok(restrict(lp.nxt(Q), pc) is Q2, "queue:kept", "the list of entities to wake is changed outside the walk over the neighbours", "")
    i2 = restrict(l2.init(Q2), t.band(l2.back, more))
    ok(i2 is mk("qrest", (Q,)), "queue:rest", "the rest of the list is lost: " + t.show(i2, 3)[:120], "the rest of the list stays")
    l2back = rs.b(l2.back)
    isinf = fclass(e.mksel(X2[0] if X2 else X, n, TM), "isinf")
    inD = t.bvar(mk("contains", (D, n))) if D is not None else 0
    inD = t.bor(inD, e.keyeq(target, n))
    nq = rs(l2.nxt(Q2))
    pushed = 0
    for c, l in t.leaves(nq):
        c = t.band(c, l2back)
        if l is Q2:
            continue
        if l is mk("qpush", (Q2, n)):
            pushed = t.bor(pushed, c)
        else:
            ok(c == 0, "queue:odd", "something else than the neighbour is added to the list: " + t.show(l, 3)[:120], "")
    want = t.band(t.bnot(inD), t.bnot(isinf))
    miss = t.band(t.band(want, t.bnot(pushed)), l2back)
    # an entity that is its own neighbour may be queued once more: it has no neighbours left by then
    extra = t.band(t.band(pushed, t.bnot(e.keyeq(target, n))), t.band(l2back, inD))
    ok(miss == 0, "spread", "a neighbour of finite mass that was not woken yet is left asleep: when " + t.showb(miss, 4)[:200], "neighbours of finite mass not woken yet are queued")
    ok(extra == 0 or skips or cleared, "again", "an entity already woken can be queued again (for ever)", "an entity already woken is not queued, or has no neighbours by then, so waking ends")
    inf = t.band(pushed, t.band(l2back, isinf))
    ok(inf == 0, "infinite", "an entity of infinite mass is woken by a neighbour", "entities of infinite mass are not woken by their neighbours")
    # infinite neighbours forget the woken entity
    if X2:
        nx2 = rs(l2.nxt(X2[0]))
        ch2 = stores(nx2, X2[0], l2back, e)
        forget = 0
        for c, key, p, v in ch2 or ():
            if key is n and p == NB and v is mk("srem", (e.mksel(X2[0], n, NB), target)):
                forget = t.bor(forget, c)
            else:
                ok(c == 0, "forget:odd", "waking an entity changes %s of its neighbour" % pname(M, p), "")
        need = t.band(t.band(isinf, t.bnot(inD)), l2back)
        ok(ch2 is not None and t.bimp(need, forget), "forget", "an entity of infinite mass keeps a woken entity as a neighbour", "entities of infinite mass forget a neighbour that is woken")
        fin = t.band(forget, t.band(l2back, t.bnot(t.bor(isinf, inD))))
        ok(fin == 0, "forget:finite", "a neighbour still to be woken forgets who it rests on first", "neighbours still to be woken keep their neighbours until it is their turn")
    else:
        ok(False, "forget", "an entity of infinite mass keeps a woken entity as a neighbour", "")
    return start


def empty(e, x, NB):
    """a set that is empty, however often members are taken out of it"""
    if x.op == "ite":
        return all(empty(e, y, NB) for y in x.args)
    if x.op == "srem":
        return empty(e, x.args[0], NB)
    if x.op == "sel" and x.args[0].op == "mu" and x.attr == NB and "init" in e.mu.get(x.args[0], {}):
        m, k = x.args
        lp = Loop(e, e.mu[m]["loop"])
        if lp.backst is None or occurs(k, lambda y: y in lp.mus):
            return False
        ch = stores(lp.nxt(m), m, lp.back, e)
        if ch is None or any(key is None or p[:1] == NB and not (p == NB and v.op == "srem" and v.args[0] is e.mksel(m, key, NB)) for c, key, p, v in ch):
            return False
        return empty(e, restrict(e.mksel(lp.init(m), k, NB), lp.entry if isinstance(lp.entry, int) else 1), NB)
    return x.op == "emptyset"


def fclass(x, tag):
    return t.tobdd(t.mapite(x, lambda y: t.frombdd(int(y.attr in ("inf", "-inf") if tag == "isinf" else y.attr == "nan" if tag == "isnan" else y.attr not in ("inf", "-inf", "nan"))) if y.op == "f" else mk("batom", (y.args[0] if y.op == "neg" else y,), tag)))


def sum_or(it):
    r = 0
    for c in it:
        r = t.bor(r, c)
    return r


def panics(e, lp):
    return [ev["cond"] for ev in e.log if ev["kind"] == "panic"]


def pname(M, p):
    if p and p[0][0] == "f":
        return M.d.fields(M.ient)[p[0][1]]["n"]
    return "all"


# ---------------------------------------------------------------- where it starts
def one(M, R, e, tag, n=1):
    ws = wakers(M, e)
    R.check(len(ws) == n, tag + "calls", "%s wakes entities in %d places, expected %d" % (tag.rstrip(":"), len(ws), n), "%s wakes entities in %d place(s)" % (tag.rstrip(":"), n))
    return ws if len(ws) == n else []


def run_op(M, R, name):
    f = M.api(name)
    e = M.engine()
    st = St({}, 1)
    args = e.default_args(f, st)
    args[0] = M.selfref()
    s, ret = M.run(e, f, args, st)
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, name, name)
    return e, s, ret, args


def update(M, R):
    e, s, ret, args = run_op(M, R, "update_entity")
    S0 = init_root(SELF)
    h, src = args[1], args[2]
    for lp, X, Q in one(M, R, e, "update_entity:"):
        start = closure(M, R, e, lp, X, Q, "update_entity:")
        R.check(start is h, "update_entity:whom", "update_entity wakes another entity than the one changed", "update_entity wakes the entity changed")
        old = lambda *n: M.efield(e, S0, h, *n)
        etid = M.d.fn(M.api("update_entity")["path"])["locals"][3][0]
        new = lambda n: e.project(src, M.d.fproj(etid, n))
        for a, b in ((("velocity",), "velocity"), (("angular_velocity",), "angular_velocity"), (("orientation", "position"), "position")):
            alg.setkind(old(*a), "v")
            alg.setkind(new(b), "v")
        done = succeeds(e, ret)
        go = lp.entry
        if go is None:
            raise AnalysisError("when update_entity wakes entities could not be read")
        quiet, over = reach(e, s.pc, [lp]), 1
        for a, b in ((("orientation", "position"), "position"), (("velocity",), "velocity"), (("angular_velocity",), "angular_velocity")):
            ch = t.tobdd(t.flt(EPS(), t.norm(t.sub(old(*a), new(b)))))
            moved(R, e, lp, done, go, ch, b, quiet, over)
        ch = t.bnot(t.tobdd(t.feq(old("own_mass"), new("own_mass"))))
        moved(R, e, lp, done, go, ch, "own_mass", quiet, over)
        # rotations: both quaternions are compared
        q0 = old("orientation", "rotation")
        rot = [a for a in t.bsupport(go) if a.op in ("lt", "le") and occurs(a, lambda y: y is q0 or y.op == "sel" and y.attr[:len(q0.attr)] == q0.attr and y.args == q0.args) and occurs(a, lambda y: y is new("rotation"))]
        base = t.band(t.band(done, quiet), over)
        qn = mk("qfrom", (new("rotation"),))
        if any(occurs(a, lambda y: y.op == "fld" and y.args[0] is qn) for a in rot):
            distance(R, e, rot, q0, qn)
        ok = False
        for bits in itertools.product((0, 1), repeat=len(rot)) if 0 < len(rot) < 4 else ():
            c = base
            for a, b in zip(rot, bits):
                c = t.band(c, t.bvar(a) if b else t.bnot(t.bvar(a)))
            ok = ok or t.bimp(c, go)
        R.check(ok, "update_entity:changed:rotation", "an update that turns an entity does not wake it", "an update that turns an entity wakes it")
        # without a change nothing wakes
        no = t.bnot(t.tobdd(t.flt(EPS(), t.norm(t.sub(old("velocity"), new("velocity"))))))
        same_ = {new("velocity"): old("velocity"), new("angular_velocity"): old("angular_velocity"), new("position"): old("orientation", "position"), new("own_mass"): old("own_mass"),
                 new("rotation"): qaxis(q0)}
        same_[mk("qfrom", (new("rotation"),))] = q0
        qn = mk("qfrom", (new("rotation"),))

        def component(y):
            if y.op == "sel" and y.args == q0.args and len(y.attr) == len(q0.attr) + 1 and y.attr[:-1] == q0.attr:
                comps[mk("fld", (qn,), y.attr[-1][1])] = y
            return False
        comps = {}
        for a in t.bsupport(go):
            occurs(a, component)
        nan = t.bvar(mk("batom", (old("own_mass"),), "isnan"))
        for sign, what in ((lambda y: y, ""), (t.neg, ", its rotation given as the opposite quaternion")):
            mp = dict(same_)
            mp.update({a: sign(b) for a, b in comps.items()})
            mp[qn] = q0 if not what else qn
            still = Subst(e, mp).b(go)
            A = Alg(e)
            still = A.canon(t.band(still, order.theory(A, [still])))
            R.check(t.band(still, t.bnot(nan)) == 0, "update_entity:same" + (":opposite" if what else ""), "an update with the values the entity has%s wakes it: when %s" % (what, t.showb(still, 4)[:200]), "an update with the values the entity has%s wakes nothing" % what)


def distance(R, e, rot, q0, qn):
    """comparisons of the parts of two rotations: each is of the distance between them, or between one and the opposite of the other"""
    parts = {}
    for a in rot:
        def part(y):
            if y.op == "sel" and y.args == q0.args and len(y.attr) == len(q0.attr) + 1 and y.attr[:-1] == q0.attr:
                parts[y.attr[-1][1]] = (mk("fld", (qn,), y.attr[-1][1]), y)
            return False
        occurs(a, part)
    bad = None
    for a in rot:
        ok = False
        for op in (t.sub, t.add):
            d = [op(*parts[i]) for i in sorted(parts)]
            sq = t.mul(d[0], d[0])
            for x in d[1:]:
                sq = t.add(sq, t.mul(x, x))
            for ref in (t.flt(EPS(), mk("sqrt", (sq,))), t.flt(t.mul(EPS(), EPS()), sq)):
                ok = ok or len(parts) == 4 and any(order.equivalent(e, t.bvar(a), q) is None for q in (t.tobdd(ref), t.bnot(t.tobdd(ref))))
        if not ok:
            bad = bad or a
    R.check(bad is None, "update_entity:turned", "what decides whether an update turns an entity is not how far apart the two rotations are: %s" % (t.show(bad, 6)[:200] if bad else ""), "how far an update turns an entity is the distance between the two rotations")


def moved(R, e, lp, done, go, ch, n, quiet, over):
    c = t.band(t.band(done, ch), t.band(quiet, over))
    bad = t.band(c, t.bnot(go))
    bad = t.band(bad, order.theory(Alg(e), [bad])) if bad else 0
    R.check(bad == 0, "update_entity:changed:" + n, "an update that changes %s does not wake the entity: when %s" % (n, t.showb(bad, 4)[:200]), "an update that changes %s wakes the entity" % n)


def succeeds(e, ret):
    return t.bnot(fail_cond(None, ret, "result"))


def remove(M, R):
    e, s, ret, args = run_op(M, R, "remove_entity")
    h = args[1]
    for lp, X, Q in one(M, R, e, "remove_entity:"):
        start = closure(M, R, e, lp, X, Q, "remove_entity:")
        R.check(start is h, "remove_entity:whom", "remove_entity wakes the neighbours of another entity than the one removed", "remove_entity wakes what rests on the entity removed")
        live = prims.live(e, e.project(M.arena(e, init_root(SELF), "ent"), prims.AL), h)
        bad = t.band(live, t.bnot(lp.entry))
        R.check(bad == 0, "remove_entity:always", "removing an entity does not wake what rests on it: when " + t.showb(bad, 4)[:200], "whenever the entity exists")


def step(M, R):
    Z = Impact(M)
    e, S, it = Z.e, Z.S, Z.iter
    R.count("functions_analysed", len(e.stats["fns"]))
    R.count("calls_resolved", e.stats["calls"])
    known_calls(R, e, "step", "step")
    ws = wakers(M, e)
    got = {}
    for i, (lp, X, Q) in enumerate(ws):
        if not lp.stack or lp.stack[0] != it.key:
            R.check(False, "step:where", "entities are woken although nothing hit them: " + lp.where())
            continue
        start = closure(M, R, e, lp, X, Q, "step:")
        if start is None:
            continue
        c = Z.g.b(Z.found(lp.entry))
        got[Z.g(Z.found(start))] = c
        n = Z.none(lp.entry)
        R.check(t.band(n, Z.pcN) == 0, "step:none", "entities are woken although nothing hit them", "without a collision nothing wakes")
    pc = Z.pcF
    for k, n in ((Z.e1, "first"), (Z.e2, "second")):
        c = got.pop(k, None)
        R.check(c is not None, "step:who:" + n, "the %s entity of a collision is not woken" % n, "the %s entity of a collision is woken" % n)
        if c is None:
            continue
        tm = Z.fld(Z.head, k, "total_mass")
        fin = fclass(tm, "isfin")
        real = t.band(t.bnot(fclass(tm, "isnan")), t.bor(fin, fclass(tm, "isinf")))     # masses are never NaN (own and collider masses are validated)
        real = t.band(real, t.bnot(t.band(fin, fclass(tm, "isinf"))))
        loops = [w[0] for w in ws]
        ctx = reach(e, Z.g.b(Z.found(it.back)), loops)
        c = reach(e, c, loops)
        bad = t.band(t.band(t.band(t.band(fin, real), pc), ctx), t.bnot(c))
        R.check(bad == 0, "step:when:" + n, "the %s entity of a collision stays asleep: when %s" % (n, t.showb(bad, 4)[:200]), "the %s entity of a collision is woken whenever its mass is finite" % n)
        bad = t.band(t.band(t.band(t.bnot(fin), real), pc), c)
        R.check(bad == 0, "step:infinite:" + n, "an entity of infinite mass is woken by a collision", "entities of infinite mass are not woken")
    for k in got:
        R.check(False, "step:who", "a collision wakes %s" % t.show(k, 3)[:120])


def reach(e, pc, lps):
    """condition pc with everything the given loops (and those in them) leave behind abstracted away"""
    mus = set()
    keys = {lp.key for lp in lps}
    for k in e.loopinfo:
        if k in keys or keys & set(Loop(e, k).stack):
            mus |= set(e.loopinfo[k].get("mus", ()))
    while True:
        for a in t.bsupport(pc):
            if occurs(a, lambda y: y in mus):
                pc = t.bor(t.bcof(pc, a, 1), t.bcof(pc, a, 0))
                break
        else:
            return pc
