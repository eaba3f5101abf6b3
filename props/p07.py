"""P07: cuboid and plane hits bound exactly the part inside."""
from vc.engine import contract
from .common import *


def slab(S, o, d, lo, hi, t, nm):
    """(closed, strict) membership of o + t*d in [lo, hi], stated over the line parameters of the two planes once that is proved equivalent"""
    p = o + t * d
    closed, strict = S.and_(S.le(lo, p), S.le(p, hi)), S.and_(S.lt(lo, p), S.lt(p, hi))
    if S.symbolic and S.is_(S.ne(d, 0)):
        a, b = S.div(lo - o, d), S.div(hi - o, d)
        if not S.is_(S.lt(0, d)):
            a, b = b, a
        c2, s2 = S.and_(S.le(a, t), S.le(t, b)), S.and_(S.lt(a, t), S.lt(t, b))
        for x, r in ((lo, S.div(lo - o, d)), (hi, S.div(hi - o, d))):
            S.ensure("%s: offset from a plane is direction times parameter distance" % nm, S.eq(p - x, d * (t - r)))
        S.ensure("%s: within the slab iff between its plane parameters" % nm, S.iff(closed, c2))
        S.ensure("%s: strictly within the slab iff strictly between its plane parameters" % nm, S.iff(strict, s2))
        return c2, s2
    return closed, strict


def gap_dirs(S, N, rays):
    for o, d in S.lanes(N, rays[0], rays[1]):
        for i in range(3):
            S.gap(d[i], S.const("1e-7"))


@contract("P07", ["tinygfx.g3d.primitives.Cube.intersect", "tinygfx.g3d.primitives.Cube.__init__"], merge=True, budget=600)
def cuboid(S):
    lo = [S.real("lo%d" % i) for i in range(3)]
    hi = [S.real("hi%d" % i) for i in range(3)]
    for a, b in zip(lo, hi):
        S.assume(S.le(a, b))
    N = S.N()
    rays = S.rays("ray", N)
    gap_dirs(S, N, rays)
    T = S.arr("t", (), N)
    r0 = S.np.array(rays)
    h = S.R.prim.Cube(tuple(lo), tuple(hi)).intersect(rays)
    S.ensure("two distances per ray", S.shape_ok(h, (2, N)))
    S.ensure("rays are not modified", S.same_array(rays, r0))
    for o, d, (h0, h1), t in S.lanes(N, r0[0], r0[1], h, T):
        cs = [slab(S, o[i], d[i], lo[i], hi[i], t, "xyz"[i]) for i in range(3)]
        inside, strictly = S.and_(*[c for c, _ in cs]), S.and_(*[s for _, s in cs])
        if S.isinf(h0) or S.isinf(h1):
            S.ensure("a miss is infinite in both places", S.isinf(h0) and S.isinf(h1) and h0 > 0 and h1 > 0)
            S.ensure("a reported miss has no point inside", S.not_(inside))
        else:
            S.ensure("ascending", S.le(h0, h1))
            S.ensure("between the hits the line is inside", S.implies(S.and_(S.lt(h0, t), S.lt(t, h1)), inside))
            S.ensure("outside the hits the line is outside", S.implies(S.or_(S.lt(t, h0), S.lt(h1, t)), S.not_(inside)))


@contract("P07", ["tinygfx.g3d.primitives.Cube.__init__", "tinygfx.g3d.primitives.Cube.intersect"])
def corners_in_any_order(S):
    """the cuboid spanned by two corners does not depend on which corner has which coordinate"""
    lo = [S.real("lo%d" % i) for i in range(3)]
    hi = [S.real("hi%d" % i) for i in range(3)]
    for a, b in zip(lo, hi):
        S.assume(S.le(a, b))
    a = S.R.prim.Cube(tuple(lo), tuple(hi))
    sw = [S.flag("swap%d" % i) for i in range(3)]
    b = S.R.prim.Cube(tuple(h if s else l for l, h, s in zip(lo, hi, sw)), tuple(l if s else h for l, h, s in zip(lo, hi, sw)))
    S.ensure("same spans", S.same_array(a.axis_spans, b.axis_spans))
    S.ensure("spans are the corners", S.same_array(a.axis_spans, S.array([[l, h] for l, h in zip(lo, hi)])))
    S.ensure("same bounding points", S.same_array(a.bounding_points, b.bounding_points))


@contract("P07", ["tinygfx.g3d.primitives.Plane.intersect"], merge=True, budget=600)
def plane(S):
    w, l = S.real("width", pos=True), S.real("length", pos=True)
    N = S.N()
    rays = S.rays("ray", N)
    gap_dirs(S, N, rays)
    r0 = S.np.array(rays)
    h = S.R.prim.Plane(w, l).intersect(rays)
    S.ensure("two distances per ray", S.shape_ok(h, (2, N)))
    S.ensure("rays are not modified", S.same_array(rays, r0))
    for o, d, (h0, h1) in S.lanes(N, r0[0], r0[1], h):
        if S.is_(S.eq(d[2], 0)):
            S.ensure("parallel to the plane: no hit", S.isinf(h0) and S.isinf(h1) and h0 > 0 and h1 > 0)
            continue
        t = S.div(-o[2], d[2])
        S.ensure("the crossing is in the plane", S.eq(o[2] + t * d[2], 0))
        cs = [slab(S, o[i], d[i], -S.div(x, 2), S.div(x, 2), t, "xy"[i])[0] for i, x in ((0, w), (1, l))]
        inside = S.and_(*cs)
        if S.isinf(h0) or S.isinf(h1):
            S.ensure("a miss is infinite in both places", S.isinf(h0) and S.isinf(h1) and h0 > 0 and h1 > 0)
            S.ensure("a reported miss crosses outside the finite plane", S.not_(inside))
        else:
            S.ensure("both distances are the crossing", S.and_(S.eq(h0, t), S.eq(h1, t)))
            S.ensure("a reported hit lies within the finite plane", inside)
