"""P06: sphere, cylinder and paraboloid hits bound exactly the part inside."""
from vc.engine import contract
from .common import *


class Quad:
    """q(t) = a t^2 + b t + c along the line"""

    def __init__(self, S, a, b, c):
        self.S, self.a, self.b, self.c = S, a, b, c
        self.disc = b * b - 4 * a * c

    def at(self, t): return self.a * t * t + self.b * t + self.c


def quad_locate(S, q, t, name, linear=None):
    """make the sign of q(t) follow from the position of t relative to the roots (a > 0 or a == 0 on this path)"""
    v = q.at(t)
    if not S.symbolic:
        return v
    if S.is_(S.gt(q.a, 0)):
        if S.is_(S.ge(q.disc, 0)):
            s = S.sqrt(q.disc)
            r1, r2 = S.div(-q.b - s, 2 * q.a), S.div(-q.b + s, 2 * q.a)
            S.locate(t, r1, r2)
            S.derive(name + " factors over its roots", v, ("*", q.a, t - r1, t - r2))
        else:
            S.derive(name + " has no root", v, ("*", S.div(1, 4 * q.a), ("+", ("sq", 2 * q.a * t + q.b), -q.disc)))
    else:
        # a == 0: linear in t
        if S.is_(S.ne(q.b, 0)):
            r = S.div(-q.c, q.b)
            S.locate(t, r)
            S.derive(name + " is linear", v, ("*", q.b, t - r))
    return v


def slab_locate(S, o, d, lo, hi, t):
    """z(t) - lo and z(t) - hi"""
    z = o + t * d
    if S.symbolic and S.is_(S.ne(d, 0)):
        for e, nm in ((lo, "lower"), (hi, "upper")):
            if e is None:
                continue
            r = S.div(e - o, d)
            S.locate(t, r)
            S.derive("z(t) against the %s plane" % nm, z - e, ("*", d, t - r))
    return z


def hits_post(S, h, t, inside):
    """h: the two reported distances; inside: closed solid at t"""
    h0, h1 = h
    if S.isinf(h0) or S.isinf(h1):
        S.ensure("a miss is infinite in both places", S.isinf(h0) and S.isinf(h1) and h0 > 0 and h1 > 0)
        S.ensure("a reported miss has no point inside", S.not_(inside))
        return
    S.ensure("finite hits", S.finite(h0) and S.finite(h1))
    lo, hi = (h0, h1) if S.is_(S.le(h0, h1)) else (h1, h0)
    S.ensure("between the hits the line is inside", S.implies(S.and_(S.lt(lo, t), S.lt(t, hi)), inside))
    S.ensure("outside the hits the line is outside", S.implies(S.or_(S.lt(t, lo), S.lt(hi, t)), S.not_(inside)))


def gaps(S, N, rays, *fs):
    for o, d in S.lanes(N, rays[0], rays[1]):
        for f in fs:
            S.gap(f(o, d), S.const("0.00000002") if S.symbolic else 1e-6)


def run(S, prim, solid, pre, before=None):
    N = S.N()
    rays = S.rays("ray", N)
    gaps(S, N, rays, *pre)
    if before:
        for o, d in S.lanes(N, rays[0], rays[1]):
            before(o, d)
    T = S.arr("t", (), N)
    r0 = S.np.array(rays)
    h = prim.intersect(rays)
    S.ensure("two distances per ray", S.shape_ok(h, (2, N)))
    S.ensure("rays are not modified", S.same_array(rays, r0))
    for o, d, hh, t in S.lanes(N, r0[0], r0[1], h, T):
        hits_post(S, hh, t, solid(o, d, t))


def a_xy(o, d): return d[0] * d[0] + d[1] * d[1]


@contract("P06", ["tinygfx.g3d.primitives.Sphere.intersect"])
def sphere(S):
    r = S.real("radius", nonzero=True)

    def solid(o, d, t):
        q = Quad(S, S.dot(d[:3], d[:3]), 2 * S.dot(o[:3], d[:3]), S.dot(o[:3], o[:3]) - r * r)
        v = quad_locate(S, q, t, "distance to the sphere")
        p = [o[i] + t * d[i] for i in range(3)]
        S.ensure("|p(t)|^2 - r^2 is that quadratic", S.eq(v, S.dot(p, p) - r * r))
        return S.le(v, 0)
    run(S, S.R.prim.Sphere(r), solid, [])


@contract("P06", ["tinygfx.g3d.primitives.Cylinder.intersect", "tinygfx.g3d.operations.binomial_root"], budget=900)
def cylinder(S):
    r, lo, hi = S.real("radius", pos=True), S.real("zmin"), S.real("zmax")
    S.assume(S.lt(lo, hi))

    def solid(o, d, t):
        q = Quad(S, a_xy(o, d), 2 * (o[0] * d[0] + o[1] * d[1]), o[0] * o[0] + o[1] * o[1] - r * r)
        v = quad_locate(S, q, t, "distance to the wall")
        z = slab_locate(S, o[2], d[2], lo, hi, t)
        x, y = o[0] + t * d[0], o[1] + t * d[1]
        S.ensure("x^2 + y^2 - r^2 is that quadratic", S.eq(v, x * x + y * y - r * r))
        return S.and_(S.le(v, 0), S.le(lo - z, 0), S.le(z - hi, 0))
    run(S, S.R.prim.Cylinder(r, lo, hi), solid, [a_xy, lambda o, d: d[2]])


@contract("P06", ["tinygfx.g3d.primitives.Paraboloid.intersect"], budget=900)
def paraboloid(S):
    f, h = S.real("focus", pos=True), S.real("height", pos=True)

    def quad(o, d):
        return Quad(S, a_xy(o, d), 2 * (o[0] * d[0] + o[1] * d[1]) - 4 * f * d[2], o[0] * o[0] + o[1] * o[1] - 4 * f * o[2])

    def above(o, d):
        """the paraboloid lies above the plane of its vertex, so its crossings come after the plane's (dz > 0) or before it (dz < 0)"""
        q = quad(o, d)
        if not S.symbolic:
            return
        if S.is_(S.gt(q.a, 0)):
            if not S.is_(S.ge(q.disc, 0)):
                return
            s = S.sqrt(q.disc)
            rs = [S.div(-q.b - s, 2 * q.a), S.div(-q.b + s, 2 * q.a)]
        else:
            rs = [S.div(-q.c, q.b)] if S.is_(S.ne(q.b, 0)) else []
        for r in rs:
            x, y, z = [o[i] + r * d[i] for i in range(3)]
            S.derive("a crossing of the paraboloid lies above its vertex", z, ("*", S.div(1, 4 * f), ("+", ("sq", x), ("sq", y))))
            if S.is_(S.ne(d[2], 0)):
                S.derive("order of the crossing and the vertex plane", r - S.div(-o[2], d[2]), ("*", S.div(1, d[2]), z))

    def solid(o, d, t):
        q = quad(o, d)
        v = quad_locate(S, q, t, "distance to the paraboloid")
        z = slab_locate(S, o[2], d[2], None, h, t)
        x, y = o[0] + t * d[0], o[1] + t * d[1]
        S.ensure("x^2 + y^2 - 4fz is that quadratic", S.eq(v, x * x + y * y - 4 * f * z))
        return S.and_(S.le(v, 0), S.le(z - h, 0))
    run(S, S.R.prim.Paraboloid(f, h), solid, [a_xy, lambda o, d: d[2], lambda o, d: f * d[2]], above)
