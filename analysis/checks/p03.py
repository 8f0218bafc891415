"""Local and world space: the public conversions of Orientation are one consistent rigid transform."""
from forms import *


def run(M, R):
    R.expl = ("each public conversion of Orientation is computed as an algebraic expression of the orientation's fields and compared, in normal form, with the rigid transform "
              "world = position + R(local + offset); the inverse pairs are composed and must cancel to the identity")
    O = lambda n: Obj(M, M.orient, n)
    fn = lambda n: "fluffy_tribble::orientation::Orientation::" + n
    o = O("o")
    pos, q, off = o.get("position"), o.get("rotation"), o.get("internal_origin_offset")
    x = V("x")
    xr = mkref(("val", x), ())
    W = lambda p: t.add(pos, rot(q, t.add(p, off)))
    L = lambda p: t.sub(rot(qinv(q), t.sub(p, pos)), off)
    one = {
        "position_into_world": (W(x), "a local point is rotated about the orientation's position after adding the origin offset"),
        "position_into_local": (L(x), "a world point is mapped by the inverse of position_into_world"),
        "direction_into_world": (rot(q, x), "a local direction is only rotated"),
        "direction_into_local": (rot(qinv(q), x), "a world direction is only rotated back"),
    }
    n = 0
    for name, (want, what) in one.items():
        e, s, r = call(M, R, fn(name), [o.ref, xr], [o])
        known_calls(R, e, name, name)
        nopanic(R, e, name, name)
        unchanged(R, s, [o], name, name)
        same(R, e, name, r, want, name + ": " + what)
        n += 1
    for a, b in (("position_into_world", "position_into_local"), ("position_into_local", "position_into_world"), ("direction_into_world", "direction_into_local"), ("direction_into_local", "direction_into_world")):
        e, s, r = call(M, R, fn(a), [o.ref, xr], [o])
        e2, s2, r2 = call(M, R, fn(b), [o.ref, mkref(("val", r), ())], [o])
        same(R, e2, "%s.%s" % (a, b), r2, x, "%s then %s is the identity" % (a, b))
        n += 1
    # lengths and the angle between directions survive the round into world space
    y = V("y")
    e, s, rx = call(M, R, fn("direction_into_world"), [o.ref, xr], [o])
    e, s, ry = call(M, R, fn("direction_into_world"), [o.ref, mkref(("val", y), ())], [o])
    same(R, e, "isometry", t.dot(rx, ry), t.dot(x, y), "direction_into_world preserves dot products")
    # the two transforms handed out as isometries
    for name, rr, tt in (("into_world", q, t.add(pos, rot(q, off))), ("into_local", qinv(q), t.sub(rot(qinv(q), t.neg(pos)), off))):
        e, s, r = call(M, R, fn(name), [o.ref], [o])
        known_calls(R, e, name, name)
        IR, IT = ("f", 0, 2, "iso"), ("f", 1, 2, "iso")
        same(R, e, name + ":rotation", mk("qrot", (e.project(r, IR), x)), mk("qrot", (rr, x)), name + ": rotation part")
        same(R, e, name + ":translation", e.project(r, IT), tt, name + ": translation part")
        n += 2
    e, s, r = call(M, R, fn("local_origin_in_world"), [o.ref], [o])
    same(R, e, "local_origin_in_world", r, W(zero3()), "local_origin_in_world is the image of the local origin")
    # moving an orientation
    lin, ang = V("lin"), V("ang")
    lr, ar = mkref(("val", lin), ()), mkref(("val", ang), ())
    e, s, r = call(M, R, fn("affect_with"), [o.ref, lr, ar], [o])
    moved = s.mem[o.root]

    def is_moved(e, v, tag):
        same(R, e, tag + ":position", o.get("position", v=v), t.add(pos, lin), tag + " translates the position by the linear movement")
        same(R, e, tag + ":rotation", mk("qrot", (o.get("rotation", v=v), x)), rot(qfrom(ang), rot(q, x)), tag + " rotates by the angular movement on top of the present rotation")
        same(R, e, tag + ":offset", o.get("internal_origin_offset", v=v), off, tag + " keeps the origin offset")
    is_moved(e, moved, "affect_with")
    e, s, r = call(M, R, fn("after_affected"), [o.ref, lr, ar], [o])
    unchanged(R, s, [o], "after_affected", "after_affected")
    is_moved(e, r, "after_affected")
    # creation and rotation vector
    p, rv, of = V("p"), V("rv"), V("of")
    e, s, r = call(M, R, fn("new"), [mkref(("val", z), ()) for z in (p, rv, of)])
    same(R, e, "new:position", o.get("position", v=r), p, "new stores the position")
    same(R, e, "new:rotation", mk("qrot", (o.get("rotation", v=r), x)), rot(qfrom(rv), x), "new stores the rotation given as a scaled axis")
    same(R, e, "new:offset", o.get("internal_origin_offset", v=r), of, "new stores the origin offset")
    e, s, r = call(M, R, fn("rotation_vec"), [o.ref], [o])
    same(R, e, "rotation_vec", r, qaxis(q), "rotation_vec is the scaled axis of the rotation")
    # interpolation
    a, b = O("a"), O("b")
    tm = S("time")
    e, s, r = call(M, R, fn("lerp"), [tm, a.ref, b.ref], [a, b])
    c1 = t.sub(num(1.0), tm)
    mix = lambda u, v: t.add(t.mul(c1, u), t.mul(tm, v))
    same(R, e, "lerp:position", o.get("position", v=r), mix(a.get("position"), b.get("position")), "lerp moves the position linearly in time")
    turns = turned(a.get("rotation"), b.get("rotation"), tm)
    d = [differs(e, mk("qrot", (o.get("rotation", v=r), x)), rot(q2, x)) for q2 in turns]
    R.check(None in d, "lerp:rotation", "lerp does not turn evenly from the start to the end: %s" % d[0], "lerp turns evenly from the start to the end")
    same(R, e, "lerp:offset", o.get("internal_origin_offset", v=r), a.get("internal_origin_offset"), "lerp keeps the origin offset of the start")
    for tv, end, tag in ((0.0, a, "start"), (1.0, b, "end")):
        e, s, r = call(M, R, fn("lerp"), [num(tv), a.ref, b.ref], [a, b])
        same(R, e, "lerp:%s:rotation" % tag, mk("qrot", (o.get("rotation", v=r), x)), rot(end.get("rotation"), x), "lerp at time %s has the %s rotation" % (tv, tag))
        same(R, e, "lerp:%s:position" % tag, o.get("position", v=r), end.get("position"), "lerp at time %s has the %s position" % (tv, tag))
    # the public interface of an entity builds its orientation from its present position and rotation
    en = Obj(M, M.ent, "ent")
    e, s, r = call(M, R, "fluffy_tribble::entity::Entity::make_orientation", [en.ref], [en])
    same(R, e, "make_orientation:position", o.get("position", v=r), en.get("position"), "make_orientation uses the entity's position")
    same(R, e, "make_orientation:rotation", mk("qrot", (o.get("rotation", v=r), x)), rot(qfrom(en.get("rotation")), x), "make_orientation uses the entity's rotation")
    same(R, e, "make_orientation:offset", o.get("internal_origin_offset", v=r), en.get("last_orientation", "internal_origin_offset"), "make_orientation keeps the last origin offset")
    R.floor("conversions", n, 12)
